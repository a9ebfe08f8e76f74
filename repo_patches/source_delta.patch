From 3d0b2cbe1b02d999cfb6ffd479f633f1140116c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:09 +0000
Subject: [PATCH 01/23] fix: a multicountable course may not be claimed twice
 from the same requirement path

---
 dp/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dp/context.py b/dp/context.py
index 58fc141..703fae9 100644
--- a/dp/context.py
+++ b/dp/context.py
@@ -335,7 +335,7 @@ class RequirementContext:
         # now limit to just the clauses in the reqpath which have not been used
         available_reqpaths = [
             reqpath
-            for reqpath in applicable_reqpath
+            for reqpath in (applicable_reqpath,)
             if reqpath not in prior_claimers
         ]
 
-- 
2.43.0


From 88c5d4e642bdb48e325ed4580ae5544db27a664e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:12 +0000
Subject: [PATCH 02/23] fix: evaluate an aggregate over the courses not in
 progress from a list, not a one-shot generator

---
 dp/assertion_clause.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dp/assertion_clause.py b/dp/assertion_clause.py
index 495d528..ad08db5 100644
--- a/dp/assertion_clause.py
+++ b/dp/assertion_clause.py
@@ -546,7 +546,7 @@ def evaluate_with_courses(assertion: Assertion, value: Sequence['CourseInstance'
 
         if has_ip_courses:
             # does the clause still pass if it's given only non-IP courses?
-            non_ip_courses = (c for c in value if not c.is_in_progress)
+            non_ip_courses = [c for c in value if not c.is_in_progress]
             calculated_result_no_ip = apply_clause_to_assertion_with_courses(assertion, non_ip_courses)
             operator_result_no_ip = apply_operator(lhs=calculated_result_no_ip.value, op=assertion.operator, rhs=assertion.expected)
         else:
-- 
2.43.0


From a3528d80df3bba762dbc8efe4ef1ca8d779afec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:56 +0000
Subject: [PATCH 03/23] fix: a course that overshoots a credits limit breaks
 the limit

---
 dp/limit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dp/limit.py b/dp/limit.py
index ec8f4d4..dc9ed01 100644
--- a/dp/limit.py
+++ b/dp/limit.py
@@ -171,15 +171,15 @@ class LimitSet:
                 if not limit.where.apply(c):
                     continue
 
-                if clause_counters[limit] >= limit.at_most:
-                    # break out of the loop once we fill up any limit clause
-                    return False
-
                 if limit.at_most_what is AtMostWhat.Courses:
                     clause_counters[limit] += 1
                 elif limit.at_most_what is AtMostWhat.Credits:
                     clause_counters[limit] += c.credits
 
+                if clause_counters[limit] > limit.at_most:
+                    # break out of the loop once we overflow any limit clause
+                    return False
+
         return True
 
     def limited_transcripts(
-- 
2.43.0


From 0b945efd08030927ffe8aa99aa9e5d43939bafb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:04 +0000
Subject: [PATCH 04/23] fix: offer every available course when a greater-than
 count needs one more than there are

---
 dp/assertion_clause.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dp/assertion_clause.py b/dp/assertion_clause.py
index ad08db5..49b789d 100644
--- a/dp/assertion_clause.py
+++ b/dp/assertion_clause.py
@@ -752,7 +752,7 @@ def input_size_range(assertion: Assertion, maximum: int) -> Iterator[int]:
         yield from range(expected, max(expected + 1, maximum + 1))
 
     elif operator is Operator.GreaterThan:
-        if maximum < expected:
+        if maximum <= expected:
             yield maximum
             return
         yield from range(expected + 1, max(expected + 2, maximum + 1))
-- 
2.43.0


From db9778c70295439fbb458c0d93e3389bc3bfe121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:09 +0000
Subject: [PATCH 05/23] fix: the lazy product of an empty iterable is empty,
 not an error

---
 dp/lazy_product.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dp/lazy_product.py b/dp/lazy_product.py
index 4847ab5..59cd7d8 100644
--- a/dp/lazy_product.py
+++ b/dp/lazy_product.py
@@ -61,7 +61,11 @@ def lazy_product(*iter_funcs: Callable[[], Iterable], repeat: int = 1) -> Iterat
             return itertools.product(*(f() for f in iter_funcs), **kwargs)
     """
     iterables = [iter(f()) for _ in range(repeat) for f in iter_funcs]
-    values = [next(i) for i in iterables]
+    try:
+        values = [next(i) for i in iterables]
+    except StopIteration:
+        # one of the iterables is empty, and so is the product
+        return
 
     while True:
         yield tuple(values)
-- 
2.43.0


From 4ef26a0167dd7447bf8a0a5999f5a82c94dc6609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:45 +0000
Subject: [PATCH 06/23] fix: there is no way to choose more items than there
 are

---
 dp/ncr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dp/ncr.py b/dp/ncr.py
index 42d363c..36ed098 100644
--- a/dp/ncr.py
+++ b/dp/ncr.py
@@ -4,6 +4,9 @@ from typing import Iterable
 
 
 def ncr(n: int, r: int) -> int:
+    if r > n:
+        return 0
+
     r = min(r, n - r)
     numer = reduce(op.mul, range(n, n - r, -1), 1)
     denom = reduce(op.mul, range(1, r + 1), 1)
-- 
2.43.0


From c7c96b93745284abee43d3d2de0a329f269ddad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:56 +0000
Subject: [PATCH 07/23] fix: all_claimed() raised KeyError for a claimed
 force-inserted course outside the transcript

---
 dp/context.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dp/context.py b/dp/context.py
index 703fae9..eccf7af 100644
--- a/dp/context.py
+++ b/dp/context.py
@@ -80,7 +80,11 @@ class RequirementContext:
         return self.transcript_with_excluded_
 
     def all_claimed(self) -> List[CourseInstance]:
-        return [self.clbid_lookup_map_[clbid] for clbid in self.claims.keys()]
+        # a force-inserted course can be claimed without being in the transcript
+        return [
+            self.clbid_lookup_map_[clbid] if clbid in self.clbid_lookup_map_ else self.forced_clbid_lookup_map_[clbid]
+            for clbid in self.claims.keys()
+        ]
 
     def has_claim(self, *, clbid: str) -> bool:
         return clbid in self.claims and len(self.claims[clbid]) > 0
-- 
2.43.0


From 525a8223c194480b4a35ca7f23cef5052c0219dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:59 +0000
Subject: [PATCH 08/23] fix: a from_claimed course rule was satisfied by a
 course nothing had claimed

---
 dp/solution/course.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dp/solution/course.py b/dp/solution/course.py
index a57bdd2..132fe9a 100644
--- a/dp/solution/course.py
+++ b/dp/solution/course.py
@@ -23,6 +23,7 @@ class CourseSolution(Solution, BaseCourseRule):
             hidden=rule.hidden,
             grade=rule.grade,
             allow_claimed=rule.allow_claimed,
+            from_claimed=rule.from_claimed,
             path=rule.path,
             overridden=overridden,
             ap=rule.ap,
-- 
2.43.0


From d1bbd59612d9b7d4ff51593ead025b26f0cb1a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:47 +0000
Subject: [PATCH 09/23] fix: a rule solved on its own recorded the claims of
 the last solution tried instead of the best one's

---
 dp/solve.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dp/solve.py b/dp/solve.py
index 1927fb2..157e7fa 100644
--- a/dp/solve.py
+++ b/dp/solve.py
@@ -19,6 +19,8 @@ def find_best_solution(*, rule: 'Rule', ctx: 'RequirementContext', merge_claims:
     best_result_index: Optional[int] = None
     best_rank: Decimal = Decimal(0)
 
+    best_claims: Dict[str, List['Claim']] = dict()
+
     claims: Dict[str, List['Claim']] = dict()
     if merge_claims:
         claims = ctx.claims
@@ -35,20 +37,23 @@ def find_best_solution(*, rule: 'Rule', ctx: 'RequirementContext', merge_claims:
                 best_result = this_result
                 best_rank = this_rank
                 best_result_index = this_index
+                best_claims = inner_ctx.claims
 
             if this_rank > best_rank:
                 best_result = this_result
                 best_rank = this_rank
                 best_result_index = this_index
+                best_claims = inner_ctx.claims
 
             if this_status in WAIVED_AND_DONE:
                 best_result = this_result
                 best_rank = this_rank
                 best_result_index = this_index
+                best_claims = inner_ctx.claims
                 break
 
-    if merge_claims and inner_ctx:
-        ctx.set_claims({**claims, **inner_ctx.claims})
+    if merge_claims:
+        ctx.set_claims({**claims, **best_claims})
 
     logger.debug('solving rule: done; at %s solved: rank %s, iteration %s', rule.path, best_rank, best_result_index)
 
-- 
2.43.0


From d48c9b3f2f184c79895fcbf1478dde263d63426c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:59 +0000
Subject: [PATCH 10/23] fix: the claims of independently solved rules were lost
 in every solution of an area but the first

---
 dp/area.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dp/area.py b/dp/area.py
index f3d17a5..f4ef549 100644
--- a/dp/area.py
+++ b/dp/area.py
@@ -192,16 +192,23 @@ class AreaOfStudy(Base):
             for i, _c in enumerate(limited_transcript):
                 logger.debug("evaluating area.result with limited transcript [%d]: %r", i, _c)
 
-            ctx = ctx.with_transcript(
+            ctx = ctx.with_empty_claims().with_transcript(
                 limited_transcript,
                 full=student.courses,
                 forced=forced_courses,
                 including_failed=student.courses_with_failed,
             )
 
+            independent_claims: Dict[str, List[Claim]] = {}
+
             for i, sol in enumerate(self.result.solutions(ctx=ctx, depth=1)):
                 logger.debug('beginning solution #%d', i + 1)
 
+                if i == 0:
+                    # the rules which are solved independently have recorded
+                    # their claims by now, and those belong to every solution
+                    independent_claims = {k: list(v) for k, v in ctx.claims.items()}
+
                 if use_optimization:
                     all_claims = sol.all_courses(ctx=ctx)
 
@@ -219,6 +226,7 @@ class AreaOfStudy(Base):
                 # We need to clear the list of claims at the end of the loop,
                 # or else we accidentally clear the independently-solved claims
                 ctx = ctx.with_empty_claims()
+                ctx.set_claims(independent_claims)
 
                 logger.debug('completed solution #%d', i + 1)
 
-- 
2.43.0


From 9b96906fef31d8fb130e8c3ff2409997ae93389d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:59 +0000
Subject: [PATCH 11/23] fix: find the lab, flac or discussion a template course
 names by its sub-type

The identity of such a course carries the sub-type as a suffix, so a
reference giving course and sub-type separately (as parsed from 'BIO 101.L'
in a template) never matched anything.
---
 dp/data/student.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dp/data/student.py b/dp/data/student.py
index 2b824b6..484c727 100644
--- a/dp/data/student.py
+++ b/dp/data/student.py
@@ -404,7 +404,9 @@ def _course_filter(c: CourseInstance, f: CourseFilterArgs) -> bool:  # noqa: C90
 
     # compare course identity
     if f.course is not None:
-        if c.identity_ != f.course:
+        # (the identity of a lab, flac, or discussion ends with its sub-type;
+        # when the sub-type is given on its own, it is compared below)
+        if c.identity_ != f.course and (f.sub_type is None or f"{c.subject} {c.number}" != f.course):
             # print('failed on course identity')
             return False
 
-- 
2.43.0


From dd92bda6fd96d9c78f940ed729199feff99317b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:24 +0000
Subject: [PATCH 12/23] fix: commit the queue deletion when an item has no area
 specification

---
 dp/server/worker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dp/server/worker.py b/dp/server/worker.py
index e414f0b..0845cec 100644
--- a/dp/server/worker.py
+++ b/dp/server/worker.py
@@ -96,6 +96,9 @@ def process_queue(*, curs: psycopg2.extensions.cursor, area_root: pathlib.Path)
 
             area_file = find_area(root=area_root, area_catalog=catalog_int, area_code=area_code)
             if not area_file:
+                # commit the deletion, so that the next item gets its own transaction
+                curs.execute('COMMIT;')
+
                 logger.error('could not find area spec for %s at or below catalog %s (%s), under %s', area_code, area_catalog, catalog_int, area_root)
                 continue
 
-- 
2.43.0


From 6a266ba820b9992926c9d4e29ffc271561648c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:59 +0000
Subject: [PATCH 13/23] fix: never solve a rule over claimed courses
 independently of the others

---
 dp/rule/conditional.py | 8 ++++++++
 dp/rule/count.py       | 3 +++
 dp/rule/course.py      | 4 ++++
 dp/rule/proficiency.py | 3 +++
 4 files changed, 18 insertions(+)

diff --git a/dp/rule/conditional.py b/dp/rule/conditional.py
index ed5e01c..83c014a 100644
--- a/dp/rule/conditional.py
+++ b/dp/rule/conditional.py
@@ -118,6 +118,14 @@ class ConditionalRule(Rule, BaseConditionalRule):
         else:
             return False
 
+    def is_never_disjoint(self) -> bool:
+        if self.condition.result is True:
+            return self.when_true.is_never_disjoint()
+        elif self.condition.result is False and self.when_false:
+            return self.when_false.is_never_disjoint()
+        else:
+            return False
+
     def all_matches(self, *, ctx: 'RequirementContext') -> Collection['Clausable']:
         if self.condition.result is True:
             return self.when_true.all_matches(ctx=ctx)
diff --git a/dp/rule/count.py b/dp/rule/count.py
index b3315af..29c0665 100644
--- a/dp/rule/count.py
+++ b/dp/rule/count.py
@@ -475,5 +475,8 @@ class CountRule(Rule, BaseCountRule):
 
         return any(r.has_potential(ctx=ctx) for r in self.items)
 
+    def is_never_disjoint(self) -> bool:
+        return any(r.is_never_disjoint() for r in self.items)
+
     def all_matches(self, *, ctx: 'RequirementContext') -> Collection['Clausable']:
         return [course for rule in self.items for course in rule.all_matches(ctx=ctx)]
diff --git a/dp/rule/course.py b/dp/rule/course.py
index 14cbf44..c80ae57 100644
--- a/dp/rule/course.py
+++ b/dp/rule/course.py
@@ -201,6 +201,10 @@ class CourseRule(Rule, BaseCourseRule):
         except StopIteration:
             return False
 
+    def is_never_disjoint(self) -> bool:
+        # what this rule may use depends on what every other rule has claimed
+        return self.from_claimed
+
     def all_matches(self, *, ctx: 'RequirementContext') -> Collection['CourseInstance']:
         return list(self._all_matches(ctx=ctx))
 
diff --git a/dp/rule/proficiency.py b/dp/rule/proficiency.py
index 4c285c9..fdc6008 100644
--- a/dp/rule/proficiency.py
+++ b/dp/rule/proficiency.py
@@ -68,5 +68,8 @@ class ProficiencyRule(Rule, BaseProficiencyRule):
     def has_potential(self, *, ctx: 'RequirementContext') -> bool:
         return True
 
+    def is_never_disjoint(self) -> bool:
+        return self.course.is_never_disjoint() if self.course else False
+
     def all_matches(self, *, ctx: 'RequirementContext') -> Collection['Clausable']:
         return self.course.all_matches(ctx=ctx) if self.course else []
-- 
2.43.0


From 5b2b2d3bc2655cc0aacabbae07a45e9714cf8e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:35 +0000
Subject: [PATCH 14/23] fix: apply block exceptions to the course of a
 proficiency

---
 dp/rule/proficiency.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dp/rule/proficiency.py b/dp/rule/proficiency.py
index fdc6008..a50cb68 100644
--- a/dp/rule/proficiency.py
+++ b/dp/rule/proficiency.py
@@ -4,6 +4,7 @@ import logging
 
 from ..base import Rule, BaseProficiencyRule
 from ..constants import Constants
+from ..exception import BlockException
 from ..solution.proficiency import ProficiencySolution
 from .course import CourseRule
 
@@ -51,6 +52,12 @@ class ProficiencyRule(Rule, BaseProficiencyRule):
             return self.course.get_required_courses(ctx=ctx)
         return tuple()
 
+    def apply_block_exception(self, to_block: BlockException) -> 'ProficiencyRule':
+        if not self.course:
+            return self
+
+        return attr.evolve(self, course=self.course.apply_block_exception(to_block))
+
     def solutions(self, *, ctx: 'RequirementContext', depth: Optional[int] = None) -> Iterator[ProficiencySolution]:
         if ctx.get_waive_exception(self.path):
             logger.debug("forced override on %s", self.path)
-- 
2.43.0


From 2d3644dc76f7e411452f57b4afc75b4e4935d8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:36 +0000
Subject: [PATCH 15/23] fix: load an emphasis whose result is not an all-of
 rule

---
 dp/rule/count.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dp/rule/count.py b/dp/rule/count.py
index 29c0665..3d2a76e 100644
--- a/dp/rule/count.py
+++ b/dp/rule/count.py
@@ -85,7 +85,7 @@ class CountRule(Rule, BaseCountRule):
             # short-circuiting if there's a post-audit clause on the emphasis.
 
             is_all_rule = 'all' in emph['result']
-            has_requirements = 'requirements' in emph or any('name' in rule for rule in emph['result']['all'])
+            has_requirements = 'requirements' in emph or any('name' in rule for rule in emph['result'].get('all', []))
             no_post_audit = 'audit' not in emph['result']
             all_rules_are_requirements = is_all_rule and all('requirement' in r or 'name' in r for r in emph['result']['all'])
 
-- 
2.43.0


From c3c290e119a7065e2eb97d927cef46e8b3518ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:44 +0000
Subject: [PATCH 16/23] fix: only size a query's selections by the assertions
 which always limit them

A query picked the largest count or sum assertion and only tried selections of that size, even when that
assertion was an upper bound on some of the courses (or on the sum), so that another assertion of the same
query could never be satisfied.
---
 dp/rule/query.py | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/dp/rule/query.py b/dp/rule/query.py
index ac28847..09029aa 100644
--- a/dp/rule/query.py
+++ b/dp/rule/query.py
@@ -12,6 +12,7 @@ from ..predicate_clause import load_predicate
 from ..assertion_clause import AnyAssertion, SomeAssertion, Assertion, ConditionalAssertion, DynamicConditionalAssertion
 from ..data.clausable import Clausable
 from ..ncr import ncr
+from ..op import Operator
 from ..solution.query import QuerySolution
 from ..constants import Constants
 from ..data.course import CourseInstance
@@ -22,6 +23,8 @@ if TYPE_CHECKING:  # pragma: no cover
 
 logger = logging.getLogger(__name__)
 
+AT_LEAST_OPERATORS = (Operator.EqualTo, Operator.GreaterThan, Operator.GreaterThanOrEqualTo)
+
 
 @attr.s(cache_hash=True, slots=True, kw_only=True, frozen=True, auto_attribs=True)
 class QueryRule(Rule, BaseQueryRule):
@@ -300,8 +303,8 @@ class QueryRule(Rule, BaseQueryRule):
         return False
 
 
-def find_largest_simple_count_assertion(assertions: Sequence[SomeAssertion]) -> Optional[SomeAssertion]:
-    def _expected(a: Optional[SomeAssertion]) -> decimal.Decimal:
+def find_largest_simple_count_assertion(assertions: Sequence[Assertion]) -> Optional[Assertion]:
+    def _expected(a: Optional[Assertion]) -> decimal.Decimal:
         if not a:
             return decimal.Decimal(0)
         return a.max_expected()
@@ -310,13 +313,15 @@ def find_largest_simple_count_assertion(assertions: Sequence[SomeAssertion]) ->
     return max(simple_clauses, key=_expected, default=None)
 
 
-def find_largest_simple_sum_assertion(assertions: Sequence[SomeAssertion]) -> Optional[SomeAssertion]:
-    def _expected(a: Optional[SomeAssertion]) -> decimal.Decimal:
+def find_largest_simple_sum_assertion(assertions: Sequence[Assertion]) -> Optional[Assertion]:
+    def _expected(a: Optional[Assertion]) -> decimal.Decimal:
         if not a:
             return decimal.Decimal(0)
         return a.max_expected()
 
-    simple_clauses = (a for a in assertions if a.is_simple_sum_clause())
+    # the sum shortcut skips every selection below the expected sum, so it only
+    # applies to the clauses which need at least that sum
+    simple_clauses = (a for a in assertions if a.is_simple_sum_clause() and a.operator in AT_LEAST_OPERATORS)
     return max(simple_clauses, key=_expected, default=None)
 
 
@@ -334,9 +339,28 @@ def flatten_assertions(it: Iterable[AnyAssertion]) -> Iterator[Assertion]:
             raise ValueError('uh oh')
 
 
-def iterate_item_set(item_set: Collection[Clausable], *, rule: QueryRule) -> Iterator[Tuple[Clausable, ...]]:
+def find_sizing_assertions(rule: QueryRule) -> List[Assertion]:
+    """Finds the assertions which can decide how many items need to be selected."""
     assertions = list(flatten_assertions(rule.all_assertions()))
 
+    if len(assertions) < 2:
+        return assertions
+
+    # With several assertions, an upper bound (or an exact number) only limits the
+    # size of the selection when it always applies, and counts every selected course;
+    # the other assertions might well need more items than the limited one.
+    unconditional = rule.all_assertions()
+    return [
+        a for a in assertions
+        if a.is_simple_sum_clause()
+        or (a.operator in (Operator.GreaterThan, Operator.GreaterThanOrEqualTo) and not a.at_most)
+        or (a in unconditional and a.where is None and a.key == 'count(courses)')
+    ]
+
+
+def iterate_item_set(item_set: Collection[Clausable], *, rule: QueryRule) -> Iterator[Tuple[Clausable, ...]]:
+    assertions = find_sizing_assertions(rule)
+
     if rule.source is QuerySource.Courses:
         largest_count_assertion = find_largest_simple_count_assertion(assertions)
         if largest_count_assertion is not None:
@@ -389,7 +413,7 @@ def estimate_item_set(item_set: Collection[Clausable], *, rule: QueryRule) -> in
     # check the credit sum inside of simple_sum_assertion.
     total = 0
 
-    assertions = list(flatten_assertions(rule.all_assertions()))
+    assertions = find_sizing_assertions(rule)
 
     if rule.source is QuerySource.Courses:
         largest_count_assertion = find_largest_simple_count_assertion(assertions)
-- 
2.43.0


From 415b332d0f0e3244525750f0553e6a3e09f3ad46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:23 +0000
Subject: [PATCH 17/23] fix: only consider a conditional assertion's chosen
 branch when sizing selections

---
 dp/rule/query.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dp/rule/query.py b/dp/rule/query.py
index 09029aa..07ea92a 100644
--- a/dp/rule/query.py
+++ b/dp/rule/query.py
@@ -330,8 +330,10 @@ def flatten_assertions(it: Iterable[AnyAssertion]) -> Iterator[Assertion]:
         if isinstance(a, Assertion):
             yield a
         elif isinstance(a, ConditionalAssertion):
-            yield a.when_true
-            if a.when_false:
+            # only the branch that the condition picked will be audited
+            if a.condition.result is not False or not a.when_false:
+                yield a.when_true
+            if a.condition.result is not True and a.when_false:
                 yield a.when_false
         elif isinstance(a, DynamicConditionalAssertion):
             yield a.when_true
-- 
2.43.0


From da993d083247155fbec2bdeed2b5aa8efa8754d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:12 +0000
Subject: [PATCH 18/23] fix: count a course once when it is inserted into a
 query which already matches it

---
 dp/solution/query.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dp/solution/query.py b/dp/solution/query.py
index 7829f6b..0d18f43 100644
--- a/dp/solution/query.py
+++ b/dp/solution/query.py
@@ -125,7 +125,8 @@ class QuerySolution(Solution, BaseQueryRule):
 
         if debug: logger.debug("auditing courses [at %s]", self.path)
 
-        output: Sequence['CourseInstance'] = cast(Sequence['CourseInstance'], self.output)
+        # a course might be inserted here and also match on its own, but it only counts once
+        output: Sequence['CourseInstance'] = tuple(dict.fromkeys(cast(Sequence['CourseInstance'], self.output)))
         if self.attempt_claims:
             for course in output:
                 was_forced = course.clbid in self.force_inserted
@@ -175,7 +176,8 @@ class QuerySolution(Solution, BaseQueryRule):
             matched_course = ctx.forced_course_by_clbid(clbid, path=self.path)
             output.append(matched_course)
 
-        for course in output:
+        # a course might be inserted here and also match on its own, but it only counts once
+        for course in dict.fromkeys(output):
             claim = ctx.make_claim(course=course, path=self.path, allow_claimed=True)
 
             assert claim.failed is False
-- 
2.43.0


From aaa4aaef4beac82245aa7c4b39eff3df3d238626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:44 +0000
Subject: [PATCH 19/23] fix: count a course once when it is inserted into an
 assertion which already matches it

---
 dp/assertion_clause.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dp/assertion_clause.py b/dp/assertion_clause.py
index 49b789d..9a66031 100644
--- a/dp/assertion_clause.py
+++ b/dp/assertion_clause.py
@@ -197,20 +197,21 @@ class Assertion:
         else:
             filtered_output = list(data)
 
-        inserted_clbids = []
+        inserted_courses = []
         for insert in ctx.get_insert_exceptions(self.path):
             matched_course = ctx.forced_course_by_clbid(insert.clbid, path=self.path)
             logger.debug("inserted %r into assertion (at %s)", matched_course, self.path)
 
             if insert.forced:
                 matched_course = ctx.forced_course_by_clbid(insert.clbid, path=self.path)
-                filtered_output.append(matched_course)
-                inserted_clbids.append(matched_course.clbid)
+                inserted_courses.append(matched_course)
             else:
                 maybe_matched_course = ctx.find_course_by_clbid(insert.clbid)
                 if maybe_matched_course is not None:
-                    filtered_output.append(maybe_matched_course)
-                    inserted_clbids.append(maybe_matched_course.clbid)
+                    inserted_courses.append(maybe_matched_course)
+
+        # a course which already matches is only counted once
+        filtered_output.extend([course for course in dict.fromkeys(inserted_courses) if course not in filtered_output])
 
         for block in ctx.get_block_exceptions(self.path):
             logger.debug("excluded %s from %s", block.clbid, self.path)
@@ -229,7 +230,7 @@ class Assertion:
             resolved=calculated_result.value,
             resolved_items=calculated_result.data,
             resolved_clbids=tuple(c.clbid for c in calculated_result.courses),
-            inserted_clbids=tuple(inserted_clbids),
+            inserted_clbids=tuple(course.clbid for course in inserted_courses),
         )
 
     def evaluate(self, value: Sequence['Clausable']) -> Tuple[ResultStatus, AppliedClauseResult]:
-- 
2.43.0


From bdf2b4aada90e8c061f3875bbce055bf085dd844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:59 +0000
Subject: [PATCH 20/23] fix: print a proficiency which has no course

---
 dp/stringify_v3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dp/stringify_v3.py b/dp/stringify_v3.py
index ffcdf47..3826cd0 100644
--- a/dp/stringify_v3.py
+++ b/dp/stringify_v3.py
@@ -224,7 +224,7 @@ def print_proficiency(
 
     yield f"{prefix}{status} Proficiency={rule['proficiency']}"
 
-    if rule['course']['status'] in WAIVED_AND_DONE_VALUES:
+    if rule['course'] and rule['course']['status'] in WAIVED_AND_DONE_VALUES:
         yield from print_course(rule['course'], transcript, indent + 4, show_paths, show_ranks)
 
 
-- 
2.43.0


From db72456efd797e58b04c60d975a065ace246153d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:59 +0000
Subject: [PATCH 21/23] fix: print a where-clause which is negated

---
 dp/stringify_v3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dp/stringify_v3.py b/dp/stringify_v3.py
index 3826cd0..f4eb7df 100644
--- a/dp/stringify_v3.py
+++ b/dp/stringify_v3.py
@@ -405,6 +405,9 @@ def str_predicate(clause: Dict[str, Any], *, nested: bool = False, raw_only: boo
         else:
             return f'({text})'
 
+    elif clause["type"] == "pred--not":
+        return f"not ({str_predicate(clause['predicate'], raw_only=raw_only)})"
+
     elif clause["type"] == "pred--if":
         cond = str_expression(clause['condition'])
         then = str_predicate(clause['when_true'])
-- 
2.43.0


From 988fe6f2c961086656657c0bd3a2239f82e7c6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:17 +0000
Subject: [PATCH 22/23] fix: count the requirements of both branches of a
 conditional as used

A requirement whose conditional used a nested requirement only in the
branch which did not apply to the student refused to load, with an
AssertionError about an unused requirement.
---
 dp/rule/conditional.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dp/rule/conditional.py b/dp/rule/conditional.py
index 83c014a..8a99a73 100644
--- a/dp/rule/conditional.py
+++ b/dp/rule/conditional.py
@@ -61,12 +61,12 @@ class ConditionalRule(Rule, BaseConditionalRule):
         )
 
     def get_requirement_names(self) -> List[str]:
-        if self.condition.result is True:
-            return self.when_true.get_requirement_names()
-        elif self.condition.result is False and self.when_false:
-            return self.when_false.get_requirement_names()
-        else:
-            return []
+        # both branches: a requirement is in use even if it is only needed by
+        # the branch which doesn't apply to this student
+        names = list(self.when_true.get_requirement_names())
+        if self.when_false:
+            names.extend(self.when_false.get_requirement_names())
+        return names
 
     def get_required_courses(self, *, ctx: 'RequirementContext') -> Collection['CourseInstance']:
         if self.condition.result is True:
-- 
2.43.0


From b01a7bb306067148b1a0d875998a2c4845d2419c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:01 +0000
Subject: [PATCH 23/23] fix: ignore an inserted or blocked course which a limit
 left out of the transcript

An area-wide limit is audited once per limited transcript. An insertion
which isn't forced, or a block at an assertion, raised
MissingClassLabIdException as soon as one of those transcripts lacked its
course, and no audit was completed.
---
 dp/area.py             | 4 ++++
 dp/assertion_clause.py | 7 +++++--
 dp/context.py          | 4 ++++
 dp/rule/course.py      | 4 ++++
 dp/solution/query.py   | 4 ++++
 5 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/dp/area.py b/dp/area.py
index f4ef549..c4c5f40 100644
--- a/dp/area.py
+++ b/dp/area.py
@@ -308,6 +308,10 @@ class AreaSolution(AreaOfStudy):
         c_or_better__path = self.common_rules[0].path
         exceptions = {}
         for e in self.context.get_insert_exceptions_beneath(c_or_better__path):
+            # the course may have been left out of this transcript by a limit
+            if not e.forced and not self.context.knows_clbid(e.clbid):
+                continue
+
             course = self.context.forced_course_by_clbid(e.clbid, path=c_or_better__path)
             exceptions[course.clbid] = course
 
diff --git a/dp/assertion_clause.py b/dp/assertion_clause.py
index 9a66031..93795fe 100644
--- a/dp/assertion_clause.py
+++ b/dp/assertion_clause.py
@@ -199,13 +199,13 @@ class Assertion:
 
         inserted_courses = []
         for insert in ctx.get_insert_exceptions(self.path):
-            matched_course = ctx.forced_course_by_clbid(insert.clbid, path=self.path)
-            logger.debug("inserted %r into assertion (at %s)", matched_course, self.path)
+            logger.debug("inserting %s into assertion (at %s)", insert.clbid, self.path)
 
             if insert.forced:
                 matched_course = ctx.forced_course_by_clbid(insert.clbid, path=self.path)
                 inserted_courses.append(matched_course)
             else:
+                # the course may have been left out of this transcript by a limit
                 maybe_matched_course = ctx.find_course_by_clbid(insert.clbid)
                 if maybe_matched_course is not None:
                     inserted_courses.append(maybe_matched_course)
@@ -215,6 +215,9 @@ class Assertion:
 
         for block in ctx.get_block_exceptions(self.path):
             logger.debug("excluded %s from %s", block.clbid, self.path)
+            # the course may have been left out of this transcript by a limit
+            if not ctx.knows_clbid(block.clbid):
+                continue
             matched_course = ctx.forced_course_by_clbid(block.clbid, path=self.path)
             try:
                 filtered_output.remove(matched_course)
diff --git a/dp/context.py b/dp/context.py
index eccf7af..ee53006 100644
--- a/dp/context.py
+++ b/dp/context.py
@@ -113,6 +113,10 @@ class RequirementContext:
     def find_course_by_clbid(self, clbid: str) -> Optional[CourseInstance]:
         return self.clbid_lookup_map_.get(clbid, None)
 
+    def knows_clbid(self, clbid: str) -> bool:
+        # a limit may leave a course out of the transcript in use
+        return clbid in self.clbid_lookup_map_ or clbid in self.forced_clbid_lookup_map_
+
     def forced_course_by_clbid(self, clbid: str, path: Sequence[str]) -> CourseInstance:
         match = self.find_course_by_clbid(clbid)
         if not match:
diff --git a/dp/rule/course.py b/dp/rule/course.py
index c80ae57..e5984b3 100644
--- a/dp/rule/course.py
+++ b/dp/rule/course.py
@@ -143,6 +143,10 @@ class CourseRule(Rule, BaseCourseRule):
         did_yield = False
 
         for insert in ctx.get_insert_exceptions(self.path):
+            # the course may have been left out of this transcript by a limit
+            if not insert.forced and not ctx.knows_clbid(insert.clbid):
+                continue
+
             matched_course = ctx.forced_course_by_clbid(insert.clbid, path=self.path)
 
             if matched_course.clbid in self.excluded_clbids:
diff --git a/dp/solution/query.py b/dp/solution/query.py
index 0d18f43..27fb1a7 100644
--- a/dp/solution/query.py
+++ b/dp/solution/query.py
@@ -173,6 +173,10 @@ class QuerySolution(Solution, BaseQueryRule):
             output = [c for c in output if c.clbid not in self.excluded_clbids]
 
         for clbid in self.inserted:
+            # the course may have been left out of this transcript by a limit
+            if clbid not in self.force_inserted and not ctx.knows_clbid(clbid):
+                continue
+
             matched_course = ctx.forced_course_by_clbid(clbid, path=self.path)
             output.append(matched_course)
 
-- 
2.43.0

