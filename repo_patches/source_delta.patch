From f291a5e407955afed8c4f5136bc6fe4bb32fee40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 1/4] fix: keep expected labels when recover_with repairs a
 failed parser

If every continuation of the inserted value failed, the reported error had
lost the labels that the same parse reports without error recovery.
---
 src/reparsec/core/combinators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reparsec/core/combinators.py b/src/reparsec/core/combinators.py
index 6b40856..cce3daa 100644
--- a/src/reparsec/core/combinators.py
+++ b/src/reparsec/core/combinators.py
@@ -484,7 +484,7 @@ def _recover_with(
             loc = ctx.get_loc(stream, pos)
             rep = make_user_insert(rem, x, pos, ctx, loc, vs, r.expected)
             if type(r) is Error:
-                return Recovered([rep], None, loc)
+                return Recovered([rep], None, loc, r.expected)
             return Recovered([rep, *r.repairs], r.min_prio, loc, r.expected)
         return r
 
@@ -527,7 +527,7 @@ def _recover_with_fn(
                 r.expected
             )
             if type(r) is Error:
-                return Recovered([rep], None, loc)
+                return Recovered([rep], None, loc, r.expected)
             return Recovered([rep, *r.repairs], r.min_prio, loc, r.expected)
         return r
 
-- 
2.43.0


From 79bb0d17650a1d07093cb1ce792bd56043113061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 2/4] fix: attempt hides consumed input of a failed parser
 during error recovery

With error recovery enabled, a failed attempt that could not be repaired
still counted as having consumed input, so label and recover_with around it
behaved differently from what is documented.
---
 src/reparsec/core/combinators.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/reparsec/core/combinators.py b/src/reparsec/core/combinators.py
index cce3daa..a14a84d 100644
--- a/src/reparsec/core/combinators.py
+++ b/src/reparsec/core/combinators.py
@@ -396,8 +396,11 @@ def _attempt(parse_fns: ParseFns[S, A]) -> ParseFn[S, A]:
             stream: S, pos: int, ctx: Ctx[S], ins: int,
             rem: Optional[int]) -> Result[A, S]:
         if rem is not None:
-            return parse_fn(stream, pos, ctx, ins, rem)
-        r = parse_fast_fn(stream, pos, ctx)
+            r = parse_fn(stream, pos, ctx, ins, rem)
+            if type(r) is Recovered and not r.repairs:
+                return Error(r.loc, r.expected)
+        else:
+            r = parse_fast_fn(stream, pos, ctx)
         if type(r) is Error:
             return Error(r.loc, r.expected)
         return r
-- 
2.43.0


From 3da09f4e9ba7515a293620c5ce0036448d4f4c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 3/4] fix: do not mistake a token index for a source offset in
 Ctx.update_loc

For streams of lexer tokens Loc.pos is an offset in the source text, while
pos is an index in the stream. When they happened to be equal, the location
was not updated, and block, aligned and indented looked at the column of an
earlier token.
---
 src/reparsec/core/types.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/reparsec/core/types.py b/src/reparsec/core/types.py
index 9644324..f42c3a7 100644
--- a/src/reparsec/core/types.py
+++ b/src/reparsec/core/types.py
@@ -26,8 +26,6 @@ class Ctx(Generic[S_contra]):
         return self._get_loc(self.loc, stream, pos)
 
     def update_loc(self, stream: S_contra, pos: int) -> "Ctx[S_contra]":
-        if pos == self.loc.pos:
-            return self
         return Ctx(
             self.mark, self._get_loc(self.loc, stream, pos), self._get_loc
         )
-- 
2.43.0


From 8e84f30b98bb5acc1f31f69df337b580a4eef22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 4/4] fix: raise LexError instead of looping on an empty match

A lexer specification that matched the empty string made split_tokens loop
forever while collecting tokens.
---
 src/reparsec/lexer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reparsec/lexer.py b/src/reparsec/lexer.py
index 0d2de7f..b0016a1 100644
--- a/src/reparsec/lexer.py
+++ b/src/reparsec/lexer.py
@@ -61,6 +61,8 @@ def iter_tokens(src: str, spec: Pattern[str]) -> Iterator[Token]:
             raise LexError(loc)
 
         end = match.end()
+        if end == pos:
+            raise LexError(loc)
         nl = src.count("\n", pos, end)
         if nl:
             line += nl
-- 
2.43.0

