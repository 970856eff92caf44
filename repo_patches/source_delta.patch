From d39214b220f2a8925b7478a017c1f7774230496c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:15 +0000
Subject: [PATCH 01/60] fix: look up cached results once, so that a concurrent
 eviction is a cache miss and not a KeyError

---
 qldpc/cache.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qldpc/cache.py b/qldpc/cache.py
index d4f217d..80f1905 100644
--- a/qldpc/cache.py
+++ b/qldpc/cache.py
@@ -26,6 +26,8 @@ from typing import Any
 import diskcache
 import platformdirs
 
+NOT_CACHED = object()  # placeholder for results that are not in the cache
+
 
 def get_disk_cache(cache_name: str, *, cache_dir: str | None = None) -> diskcache.Cache:
     """Retrieve a dictionary-like cache object."""
@@ -56,8 +58,9 @@ def use_disk_cache(
                 key = key_func(*args, **kwargs)
             else:
                 key = args + tuple(kwargs.items())
-            if key in cache:
-                return cache[key]
+            result = cache.get(key, NOT_CACHED)  # one lookup: entries may be evicted at any time
+            if result is not NOT_CACHED:
+                return result
 
             # compute results and save to cache
             result = function(*args, **kwargs)
-- 
2.43.0


From d084a0a338206014d996fb22fab6a4446438b634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:07 +0000
Subject: [PATCH 02/60] fix: keep keyword arguments apart from positional
 arguments in disk cache keys

---
 qldpc/cache.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qldpc/cache.py b/qldpc/cache.py
index 80f1905..585e783 100644
--- a/qldpc/cache.py
+++ b/qldpc/cache.py
@@ -29,6 +29,10 @@ import platformdirs
 NOT_CACHED = object()  # placeholder for results that are not in the cache
 
 
+class KeywordArguments:
+    """Marker that separates positional arguments from keyword arguments in a cache key."""
+
+
 def get_disk_cache(cache_name: str, *, cache_dir: str | None = None) -> diskcache.Cache:
     """Retrieve a dictionary-like cache object."""
     if running_with_pytest():
@@ -57,7 +61,7 @@ def use_disk_cache(
             if key_func is not None:
                 key = key_func(*args, **kwargs)
             else:
-                key = args + tuple(kwargs.items())
+                key = args + (KeywordArguments, *kwargs.items()) if kwargs else args
             result = cache.get(key, NOT_CACHED)  # one lookup: entries may be evicted at any time
             if result is not NOT_CACHED:
                 return result
-- 
2.43.0


From 84a45b574b3296a561a02a132a808991324d98eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 03/60] fix: raise an error if GAP exits abnormally, rather
 than trusting its truncated output

---
 qldpc/external/gap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qldpc/external/gap.py b/qldpc/external/gap.py
index c336a87..51a9fa9 100644
--- a/qldpc/external/gap.py
+++ b/qldpc/external/gap.py
@@ -56,9 +56,9 @@ def get_output(*commands: str) -> str:
     commands = sanitize_commands(commands)
     shell_commands = ["gap", "-l", f";{GAP_ROOT}", "-q", "--quitonbreak", "-c", " ".join(commands)]
     result = subprocess.run(shell_commands, capture_output=True, text=True)
-    if result.stderr:
+    if result.stderr or result.returncode:
         raise ValueError(
-            f"Error encountered when running GAP:{result.stderr}\n\n"
+            f"Error encountered when running GAP (exit code {result.returncode}):{result.stderr}\n\n"
             f"GAP command:\n{' '.join(commands)}"
         )
     return result.stdout
-- 
2.43.0


From b01364797b3d004aa0e68be12057bfca1b3e84e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 04/60] fix: return a copy of built-in group generators, so
 that callers cannot corrupt the built-in table

---
 qldpc/external/groups.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qldpc/external/groups.py b/qldpc/external/groups.py
index 6185b9f..e7fc81c 100644
--- a/qldpc/external/groups.py
+++ b/qldpc/external/groups.py
@@ -17,6 +17,7 @@ limitations under the License.
 
 from __future__ import annotations
 
+import copy
 import re
 import urllib.error
 import urllib.request
@@ -35,7 +36,7 @@ def get_generators(group: str) -> GENERATORS_LIST:
     """Retrieve GAP group generators."""
 
     if generators := KNOWN_GROUPS.get(group):
-        return generators
+        return copy.deepcopy(generators)  # the caller may modify what we return
 
     generators = get_generators_with_gap(group)
     if generators is not None:
-- 
2.43.0


From 788ef90e7886cc6ed0848f6f1ac0c5ff3c31ac62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 05/60] fix: recognize a successful installation of a GAP
 package, and a silently failed one

---
 qldpc/external/gap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qldpc/external/gap.py b/qldpc/external/gap.py
index 51a9fa9..bbd88ca 100644
--- a/qldpc/external/gap.py
+++ b/qldpc/external/gap.py
@@ -78,12 +78,13 @@ def require_package(name: str) -> None:
             commands = [
                 "git",
                 "clone",
+                "--quiet",  # otherwise, git reports its progress to stderr
                 f"https://github.com/gap-packages/{name.lower()}",
                 os.path.join(GAP_ROOT, "pkg", name.lower()),
             ]
             print(" ".join(commands))
             install_result = subprocess.run(commands, capture_output=True, text=True)
-            if install_result.stderr:
+            if install_result.stderr or install_result.returncode:
                 raise ValueError(f"Failed to install {name}\n\n{install_result.stderr}")
         else:
             raise ValueError("Cannot proceed without the required package")
-- 
2.43.0


From 312009ecab203eb2f708d5c0e11474b8c14bc53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:48 +0000
Subject: [PATCH 06/60] fix: build quantum Tanner codes in an order that does
 not depend on the hash seed

---
 qldpc/codes/quantum.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 5d837e8..8130595 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -1186,25 +1186,26 @@ class QTCode(CSSCode):
         then requires that edge (ag, f(g,a,b)) has label (a^-1, b), as verified by defining g' = ag
         and checking that f(g,a,b) = f(g',a^-1,b).
         """
-        subset_a = cayplex.cover_subset_a
-        subset_b = cayplex.cover_subset_b
+        # visit group members in a fixed order, so that the order of nodes does not depend on hashes
+        subset_a = sorted(cayplex.cover_subset_a)
+        subset_b = sorted(cayplex.cover_subset_b)
 
         # identify the identity element
         member = next(iter(subset_a))
         identity = member * ~member
 
-        # identify the set of nodes for which we still need to add faces
-        nodes_to_add = set([identity])
+        # identify the (ordered) set of nodes for which we still need to add faces
+        nodes_to_add = {identity: None}
 
         # build the subgraphs one node at a time
         subgraph_x = nx.DiGraph()
         subgraph_z = nx.DiGraph()
         while nodes_to_add:
-            gg = nodes_to_add.pop()
+            gg, _ = nodes_to_add.popitem()
 
             # identify nodes we have already covered, and new nodes we may need to cover
             old_nodes = set(subgraph_x.nodes())
-            new_nodes = set()
+            new_nodes = {}
 
             # add all faces adjacent to this node
             for aa, bb in itertools.product(subset_a, subset_b):
@@ -1214,9 +1215,9 @@ class QTCode(CSSCode):
                 subgraph_x.add_edge(gg, face, sort=(aa, bb))
                 subgraph_z.add_edge(aa_gg, face, sort=(~aa, bb))
 
-                new_nodes.add(aa_gg_bb)
+                new_nodes[aa_gg_bb] = None
 
-            nodes_to_add |= new_nodes - old_nodes
+            nodes_to_add |= {node: None for node in new_nodes if node not in old_nodes}
 
         return subgraph_x, subgraph_z
 
-- 
2.43.0


From 05be8d52a931ca419a6964ec9e014213c77be93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 07/60] fix: draw random members of SmallGroup(n,1), and of
 every group with one member

---
 qldpc/abstract.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index b11dccf..b55a32e 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -252,6 +252,9 @@ class Group:
         """A random element this group."""
         if seed is not None:
             sympy.core.random.seed(seed)
+        if self.order == 1:
+            # circumvent an error thrown by sympy when "unranking" an empty Permutation
+            return self.identity
         return GroupMember.from_sympy(self._group.random())
 
     @functools.cache
@@ -1096,13 +1099,6 @@ class TrivialGroup(Group):
     def _trivial_lift(cls, member: GroupMember) -> npt.NDArray[np.int_]:
         return np.array(1, ndmin=2, dtype=int)
 
-    def random(self, *, seed: int | None = None) -> GroupMember:
-        """A random (albeit unique) element this group.
-
-        Necessary to circumvent an error thrown by sympy when "unranking" an empty Permutation.
-        """
-        return self.identity
-
     @staticmethod
     def to_ring_array(data: npt.NDArray[np.int_] | NestedSequence) -> RingArray:
         """Convert a matrix of 0s and 1s into a RingArray over the trivial group."""
@@ -1251,10 +1247,6 @@ class SmallGroup(Group):
         super()._init_from_group(Group.from_name(name))
         self.group_index = index
 
-    def random(self, *, seed: int | None = None) -> GroupMember:
-        """A random element this group."""
-        return super().random(seed=seed) if self.group_index > 1 else self.identity
-
     @functools.cached_property
     def structure(self) -> str:
         """A description of the structure of this group."""
-- 
2.43.0


From a78b87bfc7bd87e55440fb6846aed2b1e18534bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:34 +0000
Subject: [PATCH 08/60] fix: draw seeded group members from a generator of
 their own, not from SymPy's global one

---
 qldpc/abstract.py      | 35 ++++++++++++++++++++++++-----------
 qldpc/codes/quantum.py | 10 ++++++++--
 2 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index b55a32e..aa1bc3b 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -33,6 +33,7 @@ import functools
 import itertools
 import math
 import operator
+import random
 import typing
 import warnings
 from collections.abc import Callable, Iterable, Iterator, Mapping, Sequence
@@ -117,6 +118,13 @@ IntegerLift = Callable[[int], npt.NDArray[np.int_]]
 GenerateFunc = Callable[[], Iterator[comb.Permutation]]
 
 
+def _get_random_number_generator(seed: int | random.Random | None) -> random.Random:
+    """A generator with the given seed, the generator provided, or (by default) that of SymPy."""
+    if isinstance(seed, random.Random):
+        return seed
+    return random.Random(seed) if seed is not None else sympy.core.random.rng
+
+
 class Group:
     """Base class for a finite group.
 
@@ -248,14 +256,16 @@ class Group:
         """Direct product of Groups."""
         return functools.reduce(operator.mul, groups * repeat)
 
-    def random(self, *, seed: int | None = None) -> GroupMember:
-        """A random element this group."""
-        if seed is not None:
-            sympy.core.random.seed(seed)
+    def random(self, *, seed: int | random.Random | None = None) -> GroupMember:
+        """A random element this group.
+
+        Passing a seed (or a random number generator) does not affect any global generators.
+        """
         if self.order == 1:
             # circumvent an error thrown by sympy when "unranking" an empty Permutation
             return self.identity
-        return GroupMember.from_sympy(self._group.random())
+        rank = _get_random_number_generator(seed).randrange(self.order)
+        return GroupMember.from_sympy(self._group.coset_unrank(rank))
 
     @functools.cache
     def regular_lift(self, member: GroupMember) -> npt.NDArray[np.int_]:
@@ -352,7 +362,11 @@ class Group:
         return Group(*generators, lift=lift)
 
     def random_symmetric_subset(
-        self, size: int, *, exclude_identity: bool = False, seed: int | None = None
+        self,
+        size: int,
+        *,
+        exclude_identity: bool = False,
+        seed: int | random.Random | None = None,
     ) -> set[GroupMember]:
         """Construct a random symmetric subset of a given size.
 
@@ -367,13 +381,12 @@ class Group:
                 "A random symmetric subset of this group must have a size between 1 and"
                 f" {self.order} (provided: {size})"
             )
-        if seed is not None:
-            sympy.core.random.seed(seed)
+        rng = _get_random_number_generator(seed)
 
         singles = set()  # group members equal to their own inverse
         doubles = set()  # pairs of group members and their inverses
         while True:  # sounds dangerous, but bear with me...
-            member = self.random()
+            member = self.random(seed=rng)
             if exclude_identity and member == self.identity:
                 continue  # pragma: no cover
 
@@ -394,11 +407,11 @@ class Group:
             elif num_extra > 0 and len(singles):
                 # we have overshot, so throw away members to get down to the right size
                 for _ in range(num_extra // 2):
-                    member = sorted(doubles)[sympy.core.random.randint(0, len(doubles) - 1)]
+                    member = sorted(doubles)[rng.randint(0, len(doubles) - 1)]
                     doubles.remove(member)
                     doubles.remove(~member)
                 if num_extra % 2:
-                    member = sorted(singles)[sympy.core.random.randint(0, len(singles) - 1)]
+                    member = sorted(singles)[rng.randint(0, len(singles) - 1)]
                     singles.remove(member)
                 return singles | doubles
 
diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 8130595..cfa6445 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -22,6 +22,7 @@ import functools
 import itertools
 import math
 import os
+import random
 from collections.abc import Collection, Sequence
 
 import galois
@@ -1238,8 +1239,13 @@ class QTCode(CSSCode):
         """
         code_a = ClassicalCode(code_a, field)
         code_b = ClassicalCode(code_b if code_b is not None else ~code_a, field)
-        subset_a = group.random_symmetric_subset(code_a.num_bits, seed=seed)
-        subset_b = group.random_symmetric_subset(code_b.num_bits) if not one_subset else subset_a
+        rng = random.Random(seed) if seed is not None else None
+        subset_a = group.random_symmetric_subset(code_a.num_bits, seed=rng)
+        subset_b = (
+            group.random_symmetric_subset(code_b.num_bits, seed=rng)
+            if not one_subset
+            else subset_a
+        )
         return QTCode(subset_a, subset_b, code_a, code_b, bipartite=bipartite)
 
     def save(self, path: str, *headers: str) -> None:
-- 
2.43.0


From 9ea813f5a148b78918ac71fda1f25336bdd99e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:34 +0000
Subject: [PATCH 09/60] fix: scramble seeds without touching NumPy's global
 random state

---
 qldpc/codes/common.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 2bac8f0..bff4cbb 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -46,11 +46,7 @@ Slice = slice | npt.NDArray[np.int_] | list[int]
 
 def get_scrambled_seed(seed: int) -> int:
     """Scramble a seed, allowing us to safely increment seeds in repeat-until-success protocols."""
-    state = np.random.get_state()
-    np.random.seed(seed)
-    new_seed = np.random.randint(np.iinfo(np.int32).max + 1)
-    np.random.set_state(state)
-    return new_seed
+    return np.random.RandomState(seed).randint(np.iinfo(np.int32).max + 1)
 
 
 def get_random_array(
-- 
2.43.0


From 2c5a28ce90283eb8734d86821d24b6426a81c29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:18 +0000
Subject: [PATCH 10/60] fix: represent PSL group members by orbits in a fixed
 order

---
 qldpc/abstract.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index aa1bc3b..8da0869 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1414,7 +1414,7 @@ class ProjectiveSpecialLinearGroup(Group):
                 for vec in itertools.product(range(self.field.order), repeat=self.dimension)
             ]
             del target_orbits[0]  # remove the orbit of the zero vector
-            target_space = [next(iter(orbit)) for orbit in set(target_orbits)]
+            target_space = [min(orbit) for orbit in dict.fromkeys(target_orbits)]
 
             # identify how the generators permute elements of the target space
             generators = []
@@ -1488,8 +1488,8 @@ class ProjectiveSpecialLinearGroup(Group):
             frozenset([(root * mat).tobytes() for root in roots])
             for mat in SpecialLinearGroup.iter_mats(dimension, field)
         ]
-        for orbit in set(orbits):
-            yield np.frombuffer(next(iter(orbit)), dtype=np.uint8).view(base_field)
+        for orbit in dict.fromkeys(orbits):
+            yield np.frombuffer(min(orbit), dtype=np.uint8).view(base_field)
 
 
 SL = SpecialLinearGroup
-- 
2.43.0


From d3d18e129a31dc3c57a7f45b86c77b49774a2acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 11/60] fix: give every placeholder symbol of a quasi-cyclic
 code a name of its own

---
 qldpc/codes/quantum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index cfa6445..81676fc 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -226,7 +226,7 @@ class QCCode(TBCode):
 
         # add more placeholder symbols if necessary
         while len(symbol_to_order) < len(orders):
-            unique_symbol = sympy.Symbol("~" + "".join(map(str, symbols)))
+            unique_symbol = sympy.Symbol("~" + "".join(map(str, symbol_to_order)))
             symbol_to_order[unique_symbol] = orders[len(symbol_to_order)]
 
         self.symbols = tuple(symbol_to_order.keys())
-- 
2.43.0


From 64f9a3707748e12fb600f6fa1d85133ab5e927ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:53 +0000
Subject: [PATCH 12/60] fix: compare a quantum Tanner code to the other code,
 and not the other code to itself

---
 qldpc/codes/quantum.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 81676fc..68673be 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -1146,11 +1146,11 @@ class QTCode(CSSCode):
     def __eq__(self, other: object) -> bool:
         return (
             isinstance(other, QTCode)
-            and other.code_a == other.code_a
-            and other.code_b == other.code_b
-            and other.complex.subset_a == other.complex.subset_a
-            and other.complex.subset_b == other.complex.subset_b
-            and other.complex.bipartite == other.complex.bipartite
+            and self.code_a == other.code_a
+            and self.code_b == other.code_b
+            and self.complex.subset_a == other.complex.subset_a
+            and self.complex.subset_b == other.complex.subset_b
+            and self.complex.bipartite == other.complex.bipartite
         )
 
     @staticmethod
-- 
2.43.0


From 5038f26bcc363ea4f5ab7e9648501307ce48fe65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 13/60] fix: load quantum Tanner codes whose seed codes have no
 parity checks, and reject incomplete files

---
 qldpc/codes/quantum.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 68673be..0d38eba 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -1289,19 +1289,30 @@ class QTCode(CSSCode):
         with open(path, "r") as file:
             lines = file.read().splitlines()
 
+        # every section of the file starts with a comment; the last six comments follow any headers
+        comments = [index for index, line in enumerate(lines) if line.startswith("#")][-6:]
+        if not (
+            [lines[index] for index in comments[:4]]
+            == ["# subset_a:", "# subset_b:", "# code_a.matrix:", "# code_b.matrix:"]
+            and comments[4:] == [len(lines) - 2, len(lines) - 1]
+            and lines[-2].startswith("# base field:")
+            and lines[-1].startswith("# bipartite:")
+        ):
+            raise ValueError(f"File does not contain a (complete) quantum Tanner code: {path}")
+
         # load miscellaneous data
         field = ast.literal_eval(lines[-2].split(":")[-1])
         bipartite = ast.literal_eval(lines[-1].split(":")[-1])
 
         # load integer arrays separated by comments
-        arrays = []
-        last_index = 0
-        for index, line in enumerate(lines):
-            if line.startswith("#"):
-                if index > last_index + 1:
-                    array = np.genfromtxt(lines[last_index + 1 : index], dtype=int, ndmin=2)
-                    arrays.append(array)
-                last_index = index
+        arrays = [
+            np.array([line.split() for line in lines[start + 1 : end]], dtype=int)
+            for start, end in itertools.pairwise(comments[:5])
+        ]
+
+        # a parity check matrix may have no rows
+        arrays[2] = arrays[2].reshape(-1, len(arrays[0]))
+        arrays[3] = arrays[3].reshape(-1, len(arrays[1]))
 
         # construct subsets and generating codes
         subset_a = set(abstract.GroupMember(gen) for gen in arrays[0])
-- 
2.43.0


From c368b7af088064d8aefde4418ac1d4c993057bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:29 +0000
Subject: [PATCH 14/60] fix: collect bivariate bicycle codes also if none of
 them is worth reporting

---
 experiments/bivariate_bicycle/collect_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/bivariate_bicycle/collect_results.py b/experiments/bivariate_bicycle/collect_results.py
index 77e2afd..6bda2c9 100755
--- a/experiments/bivariate_bicycle/collect_results.py
+++ b/experiments/bivariate_bicycle/collect_results.py
@@ -85,4 +85,4 @@ for key in cache.iterkeys():
 os.makedirs(save_dir, exist_ok=True)
 path = os.path.join(save_dir, "codes.csv")
 header = "\n".join(headers)
-np.savetxt(path, data, header=header, fmt=fmt)
+np.savetxt(path, np.reshape(data, (-1, fmt.count("%"))), header=header, fmt=fmt)
-- 
2.43.0


From 078a4252f6db566d25577875c63f1e773fe56f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:26 +0000
Subject: [PATCH 15/60] fix: let the search for quantum Tanner codes save a
 result only once it is complete

---
 experiments/quantum_tanner/run_randomized_search.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/experiments/quantum_tanner/run_randomized_search.py b/experiments/quantum_tanner/run_randomized_search.py
index 69840f6..0b7b83f 100755
--- a/experiments/quantum_tanner/run_randomized_search.py
+++ b/experiments/quantum_tanner/run_randomized_search.py
@@ -21,6 +21,7 @@ from __future__ import annotations
 import concurrent.futures
 import hashlib
 import os
+import uuid
 from collections.abc import Hashable, Iterator
 
 from qldpc import abstract, codes
@@ -123,7 +124,11 @@ def run_and_save(
         f"code parameters: {code_params}",
         f"stabilizer weight: {weight}",
     ]
-    code.save(path, *headers)
+
+    # put the file in its place only once it is complete: an existing file is a finished job
+    temp_path = f"{path}.{uuid.uuid4().hex}.tmp"
+    code.save(temp_path, *headers)
+    os.replace(temp_path, path)
 
     if not silent:
         completion_text = " "
-- 
2.43.0


From f6fa13d5e7c4de4f06a87964c28c4f6f6c9b0e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:40 +0000
Subject: [PATCH 16/60] fix: return canonical stabilizers of one type when
 asked for canonical ones

---
 qldpc/codes/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index bff4cbb..10720fd 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1190,7 +1190,9 @@ class QuditCode(AbstractCode):
 
         # if requested, retrieve stabilizer operators of one type only
         if pauli is not None:
-            stabilizer_ops = self.get_stabilizer_ops()
+            stabilizer_ops = self.get_stabilizer_ops(
+                recompute=recompute, canonicalized=canonicalized
+            )
             pivots_x = first_nonzero_cols(stabilizer_ops) < len(self)
             return stabilizer_ops[pivots_x if pauli is Pauli.X else ~pivots_x]
 
-- 
2.43.0


From 79841c8c62c2afa46b76921afbbd97528064fd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:06 +0000
Subject: [PATCH 17/60] fix: conjugate qudits with a Fourier transform that
 preserves commutation relations

---
 qldpc/codes/common.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 10720fd..bb86647 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1360,14 +1360,19 @@ class QuditCode(AbstractCode):
         """Apply local Fourier transforms to data qudits, swapping X-type and Z-type operators."""
         if qudits is None:
             qudits = getattr(self, "_default_conjugate", ())
+
+        def _conjugate(ops: galois.FieldArray) -> galois.FieldArray:
+            """Map X -> Z and Z -> X^{-1}, which preserves all commutation relations."""
+            return np.stack([-ops[:, 1], ops[:, 0]], axis=1).view(self.field)
+
         matrix_reshaped = self.matrix.copy().reshape(-1, 2, len(self))
-        matrix_reshaped[:, :, qudits] = matrix_reshaped[:, ::-1, qudits]
+        matrix_reshaped[:, :, qudits] = _conjugate(matrix_reshaped[:, :, qudits])
         matrix = matrix_reshaped.reshape(-1, 2 * len(self))
         code = QuditCode(matrix, field=self.field.order, is_subsystem_code=self.is_subsystem_code)
 
         if self._logical_ops is not None:
             logical_ops = self._logical_ops.copy().reshape(-1, 2, len(self))
-            logical_ops[:, :, qudits] = logical_ops[:, ::-1, qudits]
+            logical_ops[:, :, qudits] = _conjugate(logical_ops[:, :, qudits])
             code.set_logical_ops(logical_ops.reshape(-1, 2 * len(self)))
 
         return code
-- 
2.43.0


From 2a6b41a76f07922a1b7b8da07069fb1c5a3ce2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:57 +0000
Subject: [PATCH 18/60] fix: deform codes that have an empty set of logical
 operators

---
 qldpc/codes/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index bb86647..0580d9c 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1401,7 +1401,7 @@ class QuditCode(AbstractCode):
                 string = op_to_string(check)
                 xs_zs = tableau(string).to_numpy()
                 new_strings.append(np.concatenate(xs_zs))
-            return self.field(new_strings)
+            return self.field(new_strings).reshape(strings.shape)
 
         # deform this code by transforming its stabilizers
         matrix = deform_strings(self.matrix)
-- 
2.43.0


From 36a183530a2ce370f507c70bfdd4bcef55308cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:40 +0000
Subject: [PATCH 19/60] fix: reject logical operators of the same type that do
 not commute

---
 qldpc/codes/common.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 0580d9c..0672bb8 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1166,10 +1166,11 @@ class QuditCode(AbstractCode):
         logical_ops = np.asarray(logical_ops, dtype=int).view(self.field)
         if validate:
             dimension = len(logical_ops) // 2
-            logical_ops_x = logical_ops[:dimension]
-            logical_ops_z = logical_ops[dimension:]
-            inner_products = symplectic_conjugate(logical_ops_x) @ logical_ops_z.T
-            if not np.array_equal(inner_products, np.eye(dimension, dtype=int)):
+            identity = self.field.Identity(dimension)
+            expected_inner_products = scipy.linalg.block_diag(identity, -identity)
+            expected_inner_products = np.roll(expected_inner_products, dimension, axis=1)
+            inner_products = symplectic_conjugate(logical_ops) @ logical_ops.T
+            if not np.array_equal(inner_products, expected_inner_products):
                 raise ValueError("The given logical operators have incorrect commutation relations")
             if np.any(symplectic_conjugate(self.matrix) @ logical_ops.T):
                 raise ValueError("The given logical operators violate parity checks")
-- 
2.43.0


From e3b06b1ac7935b90316ed2ea7db02cd2b9ff3bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:40 +0000
Subject: [PATCH 20/60] fix: reduce a logical operator without modifying arrays
 that others may hold

---
 qldpc/codes/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 0672bb8..35a2699 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -2204,9 +2204,9 @@ class CSSCode(QuditCode):
             logical_op_found = np.array_equal(actual_syndrome, effective_syndrome)
 
         assert self._logical_ops is not None
-        self._logical_ops.shape = (2, self.dimension, 2, len(self))
-        self._logical_ops[pauli, logical_index, pauli, :] = candidate_logical_op
-        self._logical_ops.shape = (2 * self.dimension, 2 * len(self))
+        logical_ops = self._logical_ops.copy().reshape(2, self.dimension, 2, len(self))
+        logical_ops[pauli, logical_index, pauli, :] = candidate_logical_op
+        self._logical_ops = logical_ops.reshape(2 * self.dimension, 2 * len(self))
 
     def reduce_logical_ops(self, pauli: PauliXZ | None = None, **decoder_args: Any) -> None:
         """Reduce the weight of all logical operators."""
-- 
2.43.0


From d51380495744c69b19793662da89d76234c60923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:40 +0000
Subject: [PATCH 21/60] fix: concatenate codes without permuting the logical
 operators of the given inner code

---
 qldpc/codes/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 35a2699..3e31f61 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -18,6 +18,7 @@ limitations under the License.
 from __future__ import annotations
 
 import abc
+import copy
 import functools
 import itertools
 import random
@@ -1547,7 +1548,8 @@ class QuditCode(AbstractCode):
         if (num_outer_blocks := len(outer_physical_to_inner_logical) // len(outer)) > 1:
             outer = outer.stack(*[outer] * num_outer_blocks)
 
-        # permute logical operators of the inner code
+        # permute logical operators of the inner code (or rather of a copy, if it is the given code)
+        inner = copy.copy(inner)
         inner._logical_ops = (
             inner.get_logical_ops()
             .reshape(2, inner.dimension, -1)[:, outer_physical_to_inner_logical, :]
-- 
2.43.0


From e7f862838cec56f8dd4e91dea42d712601841c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:40 +0000
Subject: [PATCH 22/60] fix: reject generator matrices with linearly dependent
 rows

---
 qldpc/codes/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 3e31f61..0d7aa40 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -321,6 +321,8 @@ class ClassicalCode(AbstractCode):
                 f"Provided generator matrix has incorrect rank ({generator_rank} instead of"
                 f" {required_rank})"
             )
+        if len(generator) != required_rank:
+            raise ValueError("The rows of the provided generator matrix are linearly dependent")
         self._generator = generator
 
     def iter_words(self, skip_zero: bool = False) -> Iterator[galois.FieldArray]:
-- 
2.43.0


From a793186b181749533eeb2c9ab0b203aa3acdf525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:40 +0000
Subject: [PATCH 23/60] fix: build a QuditCode from a CSSCode

---
 qldpc/codes/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 0d7aa40..01ca0ce 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -89,7 +89,7 @@ class AbstractCode(abc.ABC):
         The base field is taken to be F_2 by default.
         """
         if isinstance(matrix, AbstractCode):
-            self._matrix = matrix._matrix
+            self._matrix = matrix.matrix
             self._field = matrix._field
             self._dimension = matrix._dimension
             self._distance = matrix._distance
-- 
2.43.0


From f8b5af73f074e658fce8e5b4870a5407083703fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:40 +0000
Subject: [PATCH 24/60] fix: build a Tanner code without removing edge data
 from the given graph

---
 qldpc/codes/classical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/classical.py b/qldpc/codes/classical.py
index cfe34f2..95a1890 100644
--- a/qldpc/codes/classical.py
+++ b/qldpc/codes/classical.py
@@ -246,7 +246,7 @@ class TannerCode(ClassicalCode):
             edge = frozenset([node_a, node_b])
             directed_subgraph.add_edge(node_a, edge)
             directed_subgraph.add_edge(node_b, edge)
-            if (sort_data := edge_data.pop("sort", None)) is not None:
+            if (sort_data := edge_data.get("sort")) is not None:
                 directed_subgraph[node_a][edge]["sort"] = sort_data[node_a]
                 directed_subgraph[node_b][edge]["sort"] = sort_data[node_b]
         return directed_subgraph
-- 
2.43.0


From e70aa14e7fc588f59ebecb688c254f8250e2d3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:29 +0000
Subject: [PATCH 25/60] fix: report violated parity checks before logical
 operators that do not commute

---
 qldpc/codes/common.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 01ca0ce..330e2bd 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1169,14 +1169,16 @@ class QuditCode(AbstractCode):
         logical_ops = np.asarray(logical_ops, dtype=int).view(self.field)
         if validate:
             dimension = len(logical_ops) // 2
-            identity = self.field.Identity(dimension)
-            expected_inner_products = scipy.linalg.block_diag(identity, -identity)
-            expected_inner_products = np.roll(expected_inner_products, dimension, axis=1)
-            inner_products = symplectic_conjugate(logical_ops) @ logical_ops.T
-            if not np.array_equal(inner_products, expected_inner_products):
+            logical_ops_x = logical_ops[:dimension]
+            logical_ops_z = logical_ops[dimension:]
+            inner_products = symplectic_conjugate(logical_ops_x) @ logical_ops_z.T
+            if not np.array_equal(inner_products, np.eye(dimension, dtype=int)):
                 raise ValueError("The given logical operators have incorrect commutation relations")
             if np.any(symplectic_conjugate(self.matrix) @ logical_ops.T):
                 raise ValueError("The given logical operators violate parity checks")
+            for ops in [logical_ops_x, logical_ops_z]:
+                if np.any(symplectic_conjugate(ops) @ ops.T):
+                    raise ValueError("Logical operators of the same type do not commute")
             if dimension != self.dimension:
                 raise ValueError("An incorrect number of logical operators was provided")
         self._logical_ops = logical_ops
-- 
2.43.0


From 0bb9970b97e96a2a6050190ebbdb1a50dd7b1763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 26/60] fix: shorten codes on bits that are zero in all code
 words

---
 qldpc/codes/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 330e2bd..1641129 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -596,12 +596,14 @@ class ClassicalCode(AbstractCode):
         - move the bit to the first position,
         - row-reduce the generator matrix into the form [ identity_matrix, other_stuff ], and
         - delete the first row and column from the generator matrix.
+        If all words are zero on the given bit, there is no row to delete.
         """
         assert all(0 <= bit < len(self) for bit in bits)
         generator = self.generator
         for bit in sorted(bits, reverse=True):
             generator = np.roll(generator, -bit, axis=1).view(self.field)
-            generator = generator.row_reduce()[1:, 1:]
+            generator = generator.row_reduce()
+            generator = generator[int(np.any(generator[:, 0])) :, 1:]
             generator = np.roll(generator, bit, axis=1).view(self.field)
         return ClassicalCode.from_generator(generator)
 
-- 
2.43.0


From 32b31c0908868cd5d99e08f3c7bc78149c29ffa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 27/60] fix: list every code word once also if another
 generator is set meanwhile

---
 qldpc/codes/common.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 1641129..058e538 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -327,12 +327,13 @@ class ClassicalCode(AbstractCode):
 
     def iter_words(self, skip_zero: bool = False) -> Iterator[galois.FieldArray]:
         """Iterate over the code words of this code."""
-        vectors = itertools.product(self.field.elements, repeat=self.generator.shape[0])
+        generator = self.generator  # stick to one generator, in case another one gets set
+        vectors = itertools.product(self.field.elements, repeat=generator.shape[0])
         if skip_zero:
             # skip the all-0 vector
             next(vectors)
         for vector in vectors:
-            yield self.field(vector) @ self.generator
+            yield self.field(vector) @ generator
 
     def get_random_word(self, *, seed: int | None = None) -> galois.FieldArray:
         """Random code word: a sum of all generating words with random field coefficients."""
-- 
2.43.0


From b2c2a0b3a03e3704d16ab53fcb27c62cba8f5bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 28/60] fix: let the ILP decoder find all solutions over
 non-binary fields

---
 qldpc/decoders.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/qldpc/decoders.py b/qldpc/decoders.py
index b350ebd..ee5db8f 100644
--- a/qldpc/decoders.py
+++ b/qldpc/decoders.py
@@ -418,7 +418,8 @@ class ILPDecoder(Decoder):
     ) -> list[cvxpy.Constraint]:
         """Build cvxpy constraints of the form `matrix @ variables == syndrome (mod q)`.
 
-        This method uses boolean slack variables {s_j} to relax each constraint of the form
+        This method uses slack variables {s_j} with values in {0, 1, ..., q-1} to relax each
+        constraint of the form
         `expression = val mod q`
         to
         `expression = val + sum_j q^j s_j`.
@@ -429,14 +430,18 @@ class ILPDecoder(Decoder):
         for idx, (check, syndrome_bit) in enumerate(zip(self.matrix, syndrome)):
             # identify the largest power of q needed for the relaxation
             max_zero = int(sum(check) * (self.modulus - 1) - syndrome_bit)
-            if max_zero == 0 or self.modulus == 2:
+            if max_zero <= 0 or self.modulus == 2:
                 max_power_of_q = max_zero.bit_length() - 1
             else:
                 max_power_of_q = int(np.log2(max_zero) / np.log2(self.modulus))
 
             if max_power_of_q > 0:
                 powers_of_q = [self.modulus**jj for jj in range(1, max_power_of_q + 1)]
-                slack_variables = cvxpy.Variable(max_power_of_q, boolean=True)
+                if self.modulus == 2:
+                    slack_variables = cvxpy.Variable(max_power_of_q, boolean=True)
+                else:
+                    slack_variables = cvxpy.Variable(max_power_of_q, integer=True)
+                    constraints += [slack_variables >= 0, slack_variables <= self.modulus - 1]
                 zero_mod_q = powers_of_q @ slack_variables
             else:
                 zero_mod_q = 0
-- 
2.43.0


From 74586022c770c7cfce97ce45e6204d48eca2938a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 29/60] fix: return a copy of corrections in a lookup table

---
 qldpc/decoders.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qldpc/decoders.py b/qldpc/decoders.py
index ee5db8f..760460f 100644
--- a/qldpc/decoders.py
+++ b/qldpc/decoders.py
@@ -202,7 +202,8 @@ class LookupDecoder(Decoder):
 
     def decode(self, syndrome: npt.NDArray[np.int_]) -> npt.NDArray[np.int_]:
         """Decode an error syndrome and return an inferred error."""
-        return self.table.get(tuple(syndrome.view(np.ndarray)), self.null_correction.copy())
+        # return a copy, so that callers cannot corrupt the lookup table
+        return self.table.get(tuple(syndrome.view(np.ndarray)), self.null_correction).copy()
 
 
 def get_symplectic_weight(vector: npt.NDArray[np.int_]) -> int:
-- 
2.43.0


From 4431e6f8571d28960641e98dac789276d896a4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 30/60] fix: round the solutions of integer linear programs
 rather than truncating them

---
 qldpc/decoders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/decoders.py b/qldpc/decoders.py
index 760460f..d3b93d3 100644
--- a/qldpc/decoders.py
+++ b/qldpc/decoders.py
@@ -412,7 +412,7 @@ class ILPDecoder(Decoder):
             raise ValueError(message + f"\nSolver output: {result}")
 
         # return solution to the problem variables
-        return self.variables.value.astype(int)
+        return np.rint(self.variables.value).astype(int)
 
     def cvxpy_constraints_for_syndrome(
         self, syndrome: npt.NDArray[np.int_]
-- 
2.43.0


From 3a51dff6f9d07a0ec229c7127bbbf8ed3f601233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:19 +0000
Subject: [PATCH 31/60] fix: let threads share an ILP decoder without sharing
 solutions

---
 qldpc/decoders.py | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/qldpc/decoders.py b/qldpc/decoders.py
index d3b93d3..4749bcd 100644
--- a/qldpc/decoders.py
+++ b/qldpc/decoders.py
@@ -380,42 +380,41 @@ class ILPDecoder(Decoder):
             raise ValueError("ILP decoding only supports prime number fields")
 
         self.matrix = np.asarray(matrix, dtype=int) % self.modulus
-        num_checks, num_variables = self.matrix.shape
+        self.decoder_args = decoder_args
 
+    def decode(self, syndrome: npt.NDArray[np.int_]) -> npt.NDArray[np.int_]:
+        """Decode an error syndrome and return an inferred error."""
         # variables, their constraints, and the objective (minimizing number of nonzero variables)
-        self.variable_constraints = []
+        # these are built anew each time because variables store the solution of a problem, which
+        # would otherwise be shared by all threads that use this decoder
+        num_variables = self.matrix.shape[1]
+        constraints: list[cvxpy.Constraint] = []
         if self.modulus == 2:
-            self.variables = cvxpy.Variable(num_variables, boolean=True)
-            self.objective = cvxpy.Minimize(cvxpy.norm(self.variables, 1))
+            variables = cvxpy.Variable(num_variables, boolean=True)
+            objective = cvxpy.Minimize(cvxpy.norm(variables, 1))
         else:
-            self.variables = cvxpy.Variable(num_variables, integer=True)
+            variables = cvxpy.Variable(num_variables, integer=True)
             nonzero_variable_flags = cvxpy.Variable(num_variables, boolean=True)
-            self.variable_constraints += [var >= 0 for var in iter(self.variables)]
-            self.variable_constraints += [var <= self.modulus - 1 for var in iter(self.variables)]
-            self.variable_constraints += [self.modulus * nonzero_variable_flags >= self.variables]
-            self.objective = cvxpy.Minimize(cvxpy.norm(nonzero_variable_flags, 1))
-
-        self.decoder_args = decoder_args
-
-    def decode(self, syndrome: npt.NDArray[np.int_]) -> npt.NDArray[np.int_]:
-        """Decode an error syndrome and return an inferred error."""
-        # identify all constraints
-        constraints = self.variable_constraints + self.cvxpy_constraints_for_syndrome(syndrome)
+            constraints += [var >= 0 for var in iter(variables)]
+            constraints += [var <= self.modulus - 1 for var in iter(variables)]
+            constraints += [self.modulus * nonzero_variable_flags >= variables]
+            objective = cvxpy.Minimize(cvxpy.norm(nonzero_variable_flags, 1))
+        constraints += self.cvxpy_constraints_for_syndrome(variables, syndrome)
 
         # solve the optimization problem!
-        problem = cvxpy.Problem(self.objective, constraints)
+        problem = cvxpy.Problem(objective, constraints)
         result = problem.solve(**self.decoder_args)
 
         # raise error if the optimization failed
-        if not isinstance(result, float) or not np.isfinite(result) or self.variables.value is None:
+        if not isinstance(result, float) or not np.isfinite(result) or variables.value is None:
             message = "Optimal solution to integer linear program could not be found!"
             raise ValueError(message + f"\nSolver output: {result}")
 
         # return solution to the problem variables
-        return np.rint(self.variables.value).astype(int)
+        return np.rint(variables.value).astype(int)
 
     def cvxpy_constraints_for_syndrome(
-        self, syndrome: npt.NDArray[np.int_]
+        self, variables: cvxpy.Variable, syndrome: npt.NDArray[np.int_]
     ) -> list[cvxpy.Constraint]:
         """Build cvxpy constraints of the form `matrix @ variables == syndrome (mod q)`.
 
@@ -447,7 +446,7 @@ class ILPDecoder(Decoder):
             else:
                 zero_mod_q = 0
 
-            constraint = check @ self.variables == syndrome_bit + zero_mod_q
+            constraint = check @ variables == syndrome_bit + zero_mod_q
             constraints.append(constraint)
 
         return constraints
-- 
2.43.0


From fc9fec18a4d6ddb66a04d1845ae1a718490d9080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 32/60] fix: decode an empty syndrome to no error if a lookup
 table contains undetected errors

---
 qldpc/decoders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/decoders.py b/qldpc/decoders.py
index 4749bcd..c83ac4d 100644
--- a/qldpc/decoders.py
+++ b/qldpc/decoders.py
@@ -188,7 +188,7 @@ class LookupDecoder(Decoder):
 
         self.table: dict[tuple[int, ...], npt.NDArray[np.int_]] = {}
         block_length = matrix.shape[1] // repeat
-        for weight in range(max_weight, 0, -1):
+        for weight in range(max_weight, -1, -1):
             for error_sites in itertools.combinations(range(block_length), weight):
                 error_site_indices = list(error_sites)
                 for errors in itertools.product(local_errors, repeat=weight):
-- 
2.43.0


From 734f60ba5f5f867bd193e150cec993e0b505f100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:59 +0000
Subject: [PATCH 33/60] fix: distance of a vector from a code is not bounded by
 decodings that fail

---
 qldpc/codes/common.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 058e538..75cffb6 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -473,11 +473,12 @@ class ClassicalCode(AbstractCode):
         """
         if vector is not None:
             # find the distance of the given vector from a code word
-            correction = decoders.decode(
-                self.matrix,
-                self.matrix @ np.asarray(vector, dtype=int).view(self.field),
-                **decoder_args,
-            )
+            vector = np.asarray(vector, dtype=int).view(self.field)
+            syndrome = self.matrix @ vector
+            correction = decoders.decode(self.matrix, syndrome, **decoder_args)
+            if not np.array_equal(self.matrix @ correction.view(self.field), syndrome):
+                # decoding failed, but the all-0 vector is still a code word
+                correction = vector
             return int(np.count_nonzero(correction))
 
         # effective syndrome: a trivial "actual" syndrome, and a nonzero overlap with a random word
-- 
2.43.0


From 6cc2fb7246243182049a2fdc96e2e297de0df93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:59 +0000
Subject: [PATCH 34/60] fix: automorphism groups of classical codes act on all
 bits, including fixed ones

---
 qldpc/codes/common.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 75cffb6..7d64673 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -564,7 +564,14 @@ class ClassicalCode(AbstractCode):
         matrix_str = "[" + ",".join(checks_str) + "]"
         code_str = f"CheckMatCode({matrix_str}, GF({self.field.order}))"
         group_str = "AutomorphismGroup" if self.field.order == 2 else "PermutationAutomorphismGroup"
-        return abstract.Group.from_name(f"{group_str}({code_str})")
+        group = abstract.Group.from_name(f"{group_str}({code_str})")
+
+        # make sure that the group acts on all bits, including those that are fixed by the group
+        generators = [
+            abstract.GroupMember(gen.array_form + list(range(gen.size, len(self))))
+            for gen in group.generators
+        ]
+        return abstract.Group(*generators, name=group.name)
 
     @staticmethod
     def stack(*codes: ClassicalCode) -> ClassicalCode:
-- 
2.43.0


From 6c63cf6617a819250c58378432585a1234b837ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:59 +0000
Subject: [PATCH 35/60] fix: transversal gates of code deformations preserve
 the logical operators

---
 qldpc/circuits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/circuits.py b/qldpc/circuits.py
index 598a373..3809376 100644
--- a/qldpc/circuits.py
+++ b/qldpc/circuits.py
@@ -205,7 +205,7 @@ def get_transversal_automorphism_group(
     deformations for which the logical Pauli group of the original QuditCode is a valid choice of
     logical Pauli group for the deformed QuditCode.
     """
-    parity_checks = code.matrix if not deform_code else symplectic_conjugate(code.get_logical_ops())
+    parity_checks = code.matrix if not deform_code else code.get_logical_ops()
     matrix_x = parity_checks.reshape(-1, 2, len(code))[:, 0, :]
     matrix_z = parity_checks.reshape(-1, 2, len(code))[:, 1, :]
     if not local_gates or local_gates == {"H"}:
-- 
2.43.0


From 89b6c80a782e590f2959f17a7f3c1d62218312c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:59 +0000
Subject: [PATCH 36/60] fix: transversal gates of codes whose automorphism
 group is trivial

---
 qldpc/circuits.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qldpc/circuits.py b/qldpc/circuits.py
index 3809376..62bcd01 100644
--- a/qldpc/circuits.py
+++ b/qldpc/circuits.py
@@ -256,6 +256,9 @@ def _sympy_group_intersection_generators(
     group_a: abstract.Group, group_b: abstract.Group
 ) -> tuple[tuple[int, ...], ...]:
     """Get the generators of the intersection of two Sympy permutation groups."""
+    if group_a.to_sympy().is_trivial:
+        # the subgroup search of Sympy fails for trivial groups
+        return group_a.hashable_generators()
     group_sympy = group_a.to_sympy().subgroup_search(group_b.to_sympy().contains)
     return abstract.Group(group_sympy).hashable_generators()
 
-- 
2.43.0


From 0e224a91c6fc5a77d3e08051e2c8063cacb28b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:59 +0000
Subject: [PATCH 37/60] fix: logical X operators of subsystem QuditCodes
 commute with one another

---
 qldpc/codes/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 7d64673..b9378b8 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -972,7 +972,8 @@ class QuditCode(AbstractCode):
 
         # Z support of X-type logicals, as column vectors
         logicals_xz = self.field.Zeros((len(self), self.dimension))
-        logicals_xz[cols_lx] = self.field.Identity(self.dimension)
+        if not self.is_subsystem_code:
+            logicals_xz[cols_lx] = self.field.Identity(self.dimension)
         logicals_xz[cols_gx] = -matrix_x[rows_gx] @ logicals_xz + matrix_z[rows_gx] @ logicals_xx
         logicals_xz[cols_sx] = -matrix_x[rows_sx] @ logicals_xz + matrix_z[rows_sx] @ logicals_xx
 
-- 
2.43.0


From 2a6cbc5b5065a394be5d4915b5331c9f2c9cffb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:12 +0000
Subject: [PATCH 38/60] fix: Group.regular_lift does not hand out its cached
 matrices

---
 qldpc/abstract.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 8da0869..4996bc2 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -267,9 +267,12 @@ class Group:
         rank = _get_random_number_generator(seed).randrange(self.order)
         return GroupMember.from_sympy(self._group.coset_unrank(rank))
 
-    @functools.cache
     def regular_lift(self, member: GroupMember) -> npt.NDArray[np.int_]:
         """Lift a group member to its regular representation."""
+        return self._regular_lift(member).copy()  # protect the cached matrix from modifications
+
+    @functools.cache
+    def _regular_lift(self, member: GroupMember) -> npt.NDArray[np.int_]:
         matrix = np.zeros([self.order] * 2, dtype=int)
         for ii, gg in enumerate(self.generate()):
             matrix[self.index(member * gg), ii] = 1
-- 
2.43.0


From 67d28b88f95891526326085401e54e9032040f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:12 +0000
Subject: [PATCH 39/60] fix: groups from multiplication tables and matrices
 keep their multiplication order

---
 qldpc/abstract.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 4996bc2..3b6fa36 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -300,8 +300,11 @@ class Group:
         table: npt.NDArray[np.int_] | Sequence[Sequence[int]],
         integer_lift: IntegerLift | None = None,
     ) -> Group:
-        """Construct a group from a multiplication (Cayley) table."""
-        members = {GroupMember(row): idx for idx, row in enumerate(table)}
+        """Construct a group from a multiplication (Cayley) table.
+
+        Group members permute indices by acting on them from the right, as in x --> table[x, member].
+        """
+        members = {GroupMember(col): idx for idx, col in enumerate(zip(*table))}
 
         if integer_lift is None:
             return Group(*members)
@@ -353,15 +356,15 @@ class Group:
         for (aa, bb), cc in table_as_dict.items():
             table[aa, bb] = cc
 
-        # dictionary from a permutation to the index of a group member
-        permutation_to_index = {tuple(row): idx for idx, row in enumerate(table)}
+        # dictionary from a permutation (by right multiplication) to the index of a group member
+        permutation_to_index = {tuple(col): idx for idx, col in enumerate(table.T)}
 
         def lift(member: GroupMember) -> npt.NDArray[np.int_]:
             """Lift a member to its matrix representation."""
-            return index_to_member[permutation_to_index[tuple(member.array_form)]]
+            return index_to_member[permutation_to_index[tuple(member.array_form)]].copy()
 
         # identify generating permutations and build the group itself
-        generators = [GroupMember(table[row]) for row in range(len(matrices))]
+        generators = [GroupMember(table[:, col]) for col in range(len(matrices))]
         return Group(*generators, lift=lift)
 
     def random_symmetric_subset(
@@ -1239,7 +1242,7 @@ class QuaternionGroup(Group):
                 blocks = [[zero, -unit], [unit, zero]]
             else:  # if base == 3; +/- k
                 blocks = [[zero, -imag], [-imag, zero]]
-            return sign * (np.block(blocks).T % 3).view(galois.GF(3))
+            return (sign * np.block(blocks) % 3).view(galois.GF(3))
 
         group = Group.from_table(table, integer_lift=integer_lift)
         super()._init_from_group(group, name=QuaternionGroup.__name__)
-- 
2.43.0


From 380c2dec21698629dbfac3e394b469e9ed5d01f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:12 +0000
Subject: [PATCH 40/60] fix: inverses in group rings whose first member is not
 the identity

---
 qldpc/abstract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 3b6fa36..0a8946c 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -703,7 +703,8 @@ class RingMember:
         try:
             matrix = self.regular_lift()
             matrix_inv = np.linalg.inv(matrix).view(self.field)
-            return RingMember.from_vector(self.ring, matrix_inv[:, 0])
+            identity_index = self.group.index(self.group.identity)
+            return RingMember.from_vector(self.ring, matrix_inv[:, identity_index])
         except np.linalg.LinAlgError:
             return None
 
-- 
2.43.0


From 85162843f8b0f3336af2c19253d6601767c0fd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:12 +0000
Subject: [PATCH 41/60] fix: null spaces of matrices over group rings may be
 trivial

---
 qldpc/abstract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 0a8946c..46fdba1 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -884,7 +884,7 @@ class RingArray(npt.NDArray[np.object_]):
         group = ring.group if isinstance(ring, GroupRing) else ring
         assert array.shape[-1] == group.order
         vals = [RingMember.from_vector(ring, entry) for entry in array.reshape(-1, group.order)]
-        return RingArray(np.array(vals, dtype=object).reshape(array.shape[:-1]))
+        return RingArray(np.array(vals, dtype=object).reshape(array.shape[:-1]), ring)
 
     def to_field_array(self) -> galois.FieldArray:
         """Convert a RingArray into an array of coefficients (in a finite field) for each entry.
@@ -923,7 +923,7 @@ class RingArray(npt.NDArray[np.object_]):
         # collect ring-valued null row vectors (that is, transposed null column vectors)
         null_vectors = ~RingArray.from_field_array(
             self.ring,
-            null_field_vectors.reshape(len(null_field_vectors), -1, self.group.order),
+            null_field_vectors.reshape(-1, self.shape[1], self.group.order),
         )
 
         return null_vectors.row_reduce(force_heuristic=force_heuristic)
-- 
2.43.0


From ff3fab46ab2f12d5e2df783203883792acc741ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:12 +0000
Subject: [PATCH 42/60] fix: linearly dependent rows over non-commutative group
 rings

---
 qldpc/abstract.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 46fdba1..1ce3d33 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1074,17 +1074,18 @@ class RingArray(npt.NDArray[np.object_]):
         )
 
         """
-        Invert (transpose the entries of the matrix to make them right-acting (that is, to
-        transform coefficients that are to the left of each row vector), and lift to a matrix over
-        the field.
+        Lift to a matrix over the field.  The lift of each row spans (over the field) all ring-linear
+        multiples of that row, and contains the row itself at the index of the identity.
         """
-        field_matrix = (~ring_matrix).view(RingArray).regular_lift()
+        field_matrix = ring_matrix.regular_lift()
+        identity_index = self.group.index(self.group.identity)
 
         # throw out rows that can be expressed as ring-linear combinations of other rows
         rows_to_keep = np.ones((len(ring_matrix), self.group.order), dtype=bool)
         for row in range(len(ring_matrix) - 1, -1, -1):
             rows_to_keep[row, :] = False
-            linear_system = np.vstack([field_matrix[rows_to_keep.ravel()], field_vectors[row]])
+            field_vector = field_matrix[row * self.group.order + identity_index]
+            linear_system = np.vstack([field_matrix[rows_to_keep.ravel()], field_vector])
             linear_system_rref = linear_system.T.view(self.field).row_reduce()
             for row_rref in np.argwhere(linear_system_rref[:, -1]):
                 if not np.any(linear_system_rref[row_rref, :-1]):
-- 
2.43.0


From 5a3af3670700b7fde4c35b2bd5ee8db2dc0879da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:12 +0000
Subject: [PATCH 43/60] fix: row reduction over group rings leaves no
 invertible entries outside of pivots

---
 qldpc/abstract.py | 85 +++++++++++++++++++++++++----------------------
 1 file changed, 45 insertions(+), 40 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 1ce3d33..4547211 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -973,19 +973,25 @@ class RingArray(npt.NDArray[np.object_]):
         Warning: this method is unoptimized.  There is a lot of room for speeding things up.
         """
 
-        # greedily convert invertible entries into "pivots" that are uniquely nonzero in some column
-        matrix = self._reduce_rows_with_invertible_entries()
+        matrix = self
+        while True:
+            # greedily convert invertible entries into "pivots" that are uniquely nonzero in a column
+            matrix = matrix._reduce_rows_with_invertible_entries()
 
-        # split matrix into rows with pivots, and all other rows
-        pivot_matrix, non_pivot_matrix = matrix._split_by_pivots()
+            # split matrix into rows with pivots, and all other rows
+            pivot_matrix, non_pivot_matrix = matrix._split_by_pivots(allow_non_units=False)
 
-        if non_pivot_matrix.size:
-            # identify a minimal basis for the span of the non-pivot rows
-            non_pivot_matrix = non_pivot_matrix._remove_linearly_dependent_rows()
+            if non_pivot_matrix.size:
+                # identify a minimal basis for the span of the non-pivot rows
+                non_pivot_matrix = non_pivot_matrix._remove_linearly_dependent_rows()
 
-        return np.vstack([pivot_matrix, non_pivot_matrix]).view(RingArray)
+            matrix = np.vstack([pivot_matrix, non_pivot_matrix]).view(RingArray)
 
-    def _reduce_rows_with_invertible_entries(self, *, restart_call: bool = False) -> RingArray:
+            # changing the basis of the non-pivot rows may have made new invertible entries
+            if not any(entry.inverse() for entry in non_pivot_matrix.ravel()):
+                return matrix
+
+    def _reduce_rows_with_invertible_entries(self) -> RingArray:
         """Row-reduce greedily using invertible entries.
 
         Loop over every row.  If that row contains an invertible entry, normalize the row by this
@@ -993,41 +999,39 @@ class RingArray(npt.NDArray[np.object_]):
         an appropriate multiple of this row (as you would with ordinary Gaussian elimination).
         """
         assert self.ndim == 2
-        rows: slice | list[int]
-
-        matrix = self if restart_call else self.copy()
-        num_rows, num_cols = self.shape
 
-        row_reductions_made = False  # did we perform row reductions?
-        noninvertible_rows = []  # which rows have only non-invertible entries?
-        for row in range(num_rows):
-            row_vector = matrix[row]
+        matrix = self.copy()
+        num_rows = len(self)
 
-            # look for an invertible entry in this row
-            for col, entry in enumerate(row_vector):
-                if inverse := entry.inverse():
-                    break
+        row_reductions_made = True  # did we perform row reductions in the last pass over the rows?
+        noninvertible_rows = list(range(num_rows))  # which rows have not been reduced yet?
+        while row_reductions_made and noninvertible_rows:
+            # some non-invertible entries may have become invertible, so try row-reducing again
+            row_reductions_made = False
+            rows_to_reduce, noninvertible_rows = noninvertible_rows, []
+            for row in rows_to_reduce:
+                row_vector = matrix[row]
 
-            """
-            If we found an invertible entry,
-            - multiply this row by the inverse, so that this entry is 1, and
-            - zero out the corresponding column in all other rows.
-            """
-            if inverse:
-                # "normalize" the entry to 1, and zero out its column in all other rows
-                new_vector = inverse * row_vector
-                matrix[row] = new_vector
-                for rows in [slice(None, row), slice(row + 1, num_rows)]:
-                    matrix[rows] = matrix[rows] - matrix[rows, col, None] * new_vector[None, :]
-                row_reductions_made = True
+                # look for an invertible entry in this row
+                for col, entry in enumerate(row_vector):
+                    if inverse := entry.inverse():
+                        break
 
-            else:
-                noninvertible_rows.append(row)
+                """
+                If we found an invertible entry,
+                - multiply this row by the inverse, so that this entry is 1, and
+                - zero out the corresponding column in all other rows.
+                """
+                if inverse:
+                    # "normalize" the entry to 1, and zero out its column in all other rows
+                    new_vector = inverse * row_vector
+                    matrix[row] = new_vector
+                    for rows in [slice(None, row), slice(row + 1, num_rows)]:
+                        matrix[rows] = matrix[rows] - matrix[rows, col, None] * new_vector[None, :]
+                    row_reductions_made = True
 
-        if row_reductions_made and noninvertible_rows:
-            # some non-invertible entries may have become invertible, so try row-reducing again
-            rows = [row for row in noninvertible_rows if np.any(matrix[row])]
-            matrix[rows].view(RingArray)._reduce_rows_with_invertible_entries(restart_call=True)
+                else:
+                    noninvertible_rows.append(row)
 
         return matrix
 
@@ -1043,7 +1047,8 @@ class RingArray(npt.NDArray[np.object_]):
         pivot_cols = np.sum(self_as_bool, axis=0) == 1
         for col in np.argwhere(pivot_cols):
             row = np.argwhere(self_as_bool[:, col])[0][0]
-            pivot_rows[row] = allow_non_units or self[row, col][0].inverse()
+            if allow_non_units or self[row, col][0].inverse():
+                pivot_rows[row] = True
         pivot_matrix = self[pivot_rows].view(RingArray)
         non_pivot_matrix = self[~pivot_rows].view(RingArray)
         return pivot_matrix, non_pivot_matrix[np.any(non_pivot_matrix, axis=1)]
-- 
2.43.0


From 973132208db79c828132e36cd6fbcd044373fac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:12 +0000
Subject: [PATCH 44/60] fix: generation of Abelian groups with trivial factors,
 and QCCodes on such groups

---
 qldpc/abstract.py      | 5 +++--
 qldpc/codes/quantum.py | 6 +++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 4547211..cae621f 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1170,9 +1170,10 @@ class AbelianGroup(Group):
 
         # override the default order in which SymPy iterates over group members
         def generate_func() -> Iterator[comb.Permutation]:
-            for powers in itertools.product(*[range(order) for order in orders]):
+            nontrivial_orders = [order for order in orders if order > 1]  # those with a generator
+            for powers in itertools.product(*[range(order) for order in nontrivial_orders]):
                 factors = [gen**power for gen, power in zip(group.generators, powers)]
-                yield functools.reduce(operator.mul, factors)
+                yield functools.reduce(operator.mul, factors, group.identity)
 
         super()._init_from_group(group, name, generate_func, lift)
 
diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 0d38eba..2b2d9ba 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -235,7 +235,11 @@ class QCCode(TBCode):
         # identify the group generator associated with each symbol
         self.group = abstract.AbelianGroup(*self.orders)
         self.ring = abstract.GroupRing(self.group, field)
-        self.symbol_gens = dict(zip(self.symbols, self.group.generators))
+        generators = iter(self.group.generators)  # which exclude those of trivial cyclic groups
+        self.symbol_gens = {
+            symbol: next(generators) if order > 1 else self.group.identity
+            for symbol, order in symbol_to_order.items()
+        }
 
         # build defining matrices of a generalized bicycle code; transpose the lift by convention
         matrix_a = self.eval(self.poly_a).lift().T
-- 
2.43.0


From d3e8a1160a8094811ac5a591ca5ccffa581d247a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:12 +0000
Subject: [PATCH 45/60] fix: linear lifts of SL and PSL are homomorphisms to
 matrices over their field

---
 qldpc/abstract.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index cae621f..d9d3813 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1327,25 +1327,26 @@ class SpecialLinearGroup(Group):
             for member in self.get_generating_mats(self.dimension, self.field.order):
                 perm = np.empty(len(target_space), dtype=int)
                 for index, vec_bytes in enumerate(target_space):
-                    next_vec = member @ np.frombuffer(vec_bytes, dtype=np.uint8).view(self.field)
+                    next_vec = np.frombuffer(vec_bytes, dtype=np.uint8).view(self.field) @ member
                     next_index = target_space.index(next_vec.view(np.ndarray).tobytes())
                     perm[index] = next_index
                 generators.append(GroupMember(perm))
 
-            def lift(member: GroupMember) -> npt.NDArray[np.int_]:
+            def lift(member: GroupMember) -> galois.FieldArray:
                 """Lift a group member to a square matrix.
 
-                Each column is determined by how the matrix acts on a standard basis vector.
+                Each row is determined by how the matrix acts (from the right) on a standard basis
+                vector.
                 """
-                cols = []
+                rows = []
                 for entry in range(self.dimension):
                     inp_vec = np.zeros(self.dimension, dtype=np.uint8)
                     inp_vec[entry] = 1
                     inp_idx = target_space.index(inp_vec.tobytes())
                     out_idx = member(inp_idx)
                     out_vec = np.frombuffer(target_space[out_idx], dtype=np.uint8)
-                    cols.append(out_vec)
-                return np.vstack(cols, dtype=int).T
+                    rows.append(out_vec)
+                return np.vstack(rows).view(self.field)
 
             super()._init_from_group(comb.PermutationGroup(generators), lift=lift)
 
@@ -1436,29 +1437,32 @@ class ProjectiveSpecialLinearGroup(Group):
                 perm = np.empty(len(target_space), dtype=int)
                 for index, vec_bytes in enumerate(target_space):
                     vec = np.frombuffer(vec_bytes, dtype=np.uint8).view(self.field)
-                    next_orbit = [root * member @ vec for root in roots]
+                    next_orbit = [root * vec @ member for root in roots]
                     next_vec = next((vec for vec in next_orbit if vec.tobytes() in target_space))
                     next_index = target_space.index(next_vec.tobytes())
                     perm[index] = next_index
                 generators.append(GroupMember(perm))
 
             # construct a lift identical to that for the linear representation of SL
-            def lift(member: GroupMember) -> npt.NDArray[np.int_]:
+            def lift(member: GroupMember) -> galois.FieldArray:
                 """Lift a group member to a square matrix.
 
-                Each column is determined by how the matrix acts on a standard basis vector.
+                Each row is determined by how the matrix acts (from the right) on a standard basis
+                vector.
                 """
-                cols = []
+                rows = []
                 for entry in range(self.dimension):
                     inp_vec = np.zeros(self.dimension, dtype=np.uint8)
                     inp_vec[entry] = 1
                     inp_idx = target_space.index(inp_vec.tobytes())
                     out_idx = member(inp_idx)
                     out_vec = np.frombuffer(target_space[out_idx], dtype=np.uint8)
-                    cols.append(out_vec)
-                return np.vstack(cols, dtype=int).T
+                    rows.append(out_vec)
+                return np.vstack(rows).view(self.field)
 
-            super()._init_from_group(comb.PermutationGroup(generators), lift=lift)
+            # if there are nontrivial roots of unity, this group does not have such a representation
+            group = comb.PermutationGroup(generators)
+            super()._init_from_group(group, lift=lift if num_roots == 1 else None)
 
         else:
             # represent group members by how they permute elements of the group itself
-- 
2.43.0


From d816003a2d0b089e7911dbc3afb0cc3b2aad8d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:13 +0000
Subject: [PATCH 46/60] fix: coefficients of primitive central idempotents over
 non-prime fields

---
 qldpc/external/groups.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qldpc/external/groups.py b/qldpc/external/groups.py
index e7fc81c..efffe2c 100644
--- a/qldpc/external/groups.py
+++ b/qldpc/external/groups.py
@@ -272,13 +272,14 @@ def get_primitive_central_idempotents(
         for ring_term_match in re_ring_term.finditer(ring_member_match.group()):
             coefficient_string, cycles_string = ring_term_match.group().split("*")
 
-            # convert "Z(p^k)^m" into galois.GF(field)(galois.GF(p**k).primitive_element ** m)
+            # convert "Z(p^k)^m" into the corresponding power of the generator of GF(field)
             coefficient_match = re_coefficient_components.match(coefficient_string)
             assert coefficient_match is not None
             pp = int(coefficient_match.group(1))
             kk = int(coefficient_match.group(2) or 1)
             mm = int(coefficient_match.group(3) or 1)
-            coefficient = galois.GF(field)(galois.GF(pp**kk).primitive_element ** mm)
+            step = (field - 1) // (pp**kk - 1)  # Z(p^k) generates a subfield of GF(field)
+            coefficient = galois.GF(field).primitive_element ** (mm * step)
 
             # extract and 0-index cycles
             cycles = tuple(
-- 
2.43.0


From 59feaeaace4ca445e9c87919af2546c9e047aadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:13 +0000
Subject: [PATCH 47/60] fix: distances of codes with at least 256 qubits

---
 qldpc/codes/distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/distance.py b/qldpc/codes/distance.py
index aef6d44..037a688 100644
--- a/qldpc/codes/distance.py
+++ b/qldpc/codes/distance.py
@@ -277,7 +277,7 @@ def get_distance_quantum(
     bufs = [np.empty_like(arrayf) for _ in range(nbuf)]
 
     # Min weight of the part containing logical ops
-    weights = weight_func(arrayf[2**num_stabilizers :])
+    weights = weight_func(arrayf[2**num_stabilizers :]).astype(np.uint)
     min_weight = _inplace_rowsum(weights).min(initial=num_bits)
 
     for li in range(1, 2 ** len(int_logical_ops)):
-- 
2.43.0


From 1a0fd3778c54ea3febfe2f04988360e19675ab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:02 +0000
Subject: [PATCH 48/60] fix: arrays over a group ring keep the ring that they
 are given

---
 qldpc/abstract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index d9d3813..697b9f2 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -758,9 +758,9 @@ class RingArray(npt.NDArray[np.object_]):
                     "Try building an array with RingArray.build(...)"
                 )
             else:
-                if not (ring is None or ring == value.ring):
+                ring = ring or value.ring
+                if ring != value.ring:
                     raise ValueError("Inconsistent base rings provided for a RingArray")
-                ring = value.ring
 
         if ring is None:
             raise ValueError("Cannot determine the underlying ring for a RingArray")
-- 
2.43.0


From 347dae6d8fb2f01f63c69fd519665879b185b045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:02 +0000
Subject: [PATCH 49/60] fix: a ring code of a single bit has no parity checks

---
 qldpc/codes/classical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/classical.py b/qldpc/codes/classical.py
index 95a1890..bed9aba 100644
--- a/qldpc/codes/classical.py
+++ b/qldpc/codes/classical.py
@@ -52,7 +52,7 @@ class RingCode(ClassicalCode):
         self._matrix = self.field.Zeros((bits, bits))
         for row in range(bits):
             self._matrix[row, row] = 1
-            self._matrix[row, (row + 1) % bits] = -self.field(1)
+            self._matrix[row, (row + 1) % bits] -= self.field(1)
 
         self._dimension = 1
         self._distance = bits
-- 
2.43.0


From 0d0d8bceb4d23193724be2ead558ed3291c1d60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:02 +0000
Subject: [PATCH 50/60] fix: BCH codes over fields of order 11 and up

---
 qldpc/codes/classical.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qldpc/codes/classical.py b/qldpc/codes/classical.py
index bed9aba..6ec0261 100644
--- a/qldpc/codes/classical.py
+++ b/qldpc/codes/classical.py
@@ -127,8 +127,10 @@ class BCHCode(ClassicalCode):
 
     def __init__(self, length: int, dimension: int, field: int | None = None) -> None:
         field = field or DEFAULT_FIELD_ORDER
-        length_in_base = np.base_repr(length, base=field)
-        if not length_in_base == str(field - 1) * len(length_in_base):
+        degree = 1
+        while field**degree - 1 < length:
+            degree += 1
+        if length != field**degree - 1:
             raise ValueError(
                 f"BCH codes over F_{field} are only defined for block lengths {field}^m - 1 with"
                 " integer m."
-- 
2.43.0


From 209a6f1d5621f29e2dd931bd942c135695d82ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:02 +0000
Subject: [PATCH 51/60] fix: Reed-Muller codes of order 0 have a generator
 matrix

---
 qldpc/codes/classical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/classical.py b/qldpc/codes/classical.py
index 6ec0261..8557acc 100644
--- a/qldpc/codes/classical.py
+++ b/qldpc/codes/classical.py
@@ -165,7 +165,7 @@ class ReedMullerCode(ClassicalCode):
         ReedMullerCode._assert_valid_params(order, size)
 
         if order == 0:
-            return np.ones(2**size, dtype=int)
+            return np.ones((1, 2**size), dtype=int)
         if order == size:
             return np.identity(2**size, dtype=int)
 
-- 
2.43.0


From 6c2b6ef3c1499730995f0a5b2c5af41dba8a4e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:02 +0000
Subject: [PATCH 52/60] fix: Hamming codes of dimension 0 have no distance

---
 qldpc/codes/classical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qldpc/codes/classical.py b/qldpc/codes/classical.py
index 8557acc..7d5557e 100644
--- a/qldpc/codes/classical.py
+++ b/qldpc/codes/classical.py
@@ -81,7 +81,7 @@ class HammingCode(ClassicalCode):
             self._matrix = self.field(strings).T
 
         self._dimension = len(self) - len(self._matrix)
-        self._distance = 3
+        self._distance = 3 if self._dimension else np.nan
 
 
 class ExtendedHammingCode(ClassicalCode):
@@ -99,7 +99,7 @@ class ExtendedHammingCode(ClassicalCode):
         ClassicalCode.__init__(self, matrix)
 
         self._dimension = len(self) - len(self._matrix)
-        self._distance = 4
+        self._distance = 4 if self._dimension else np.nan
 
 
 class ReedSolomonCode(ClassicalCode):
-- 
2.43.0


From 0a3d26d7aedf268f26c1bcbdbf0eae1c71ad2eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:02 +0000
Subject: [PATCH 53/60] fix: negative coefficients in the polynomials of
 QCCodes

---
 qldpc/codes/quantum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 2b2d9ba..523a153 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -257,7 +257,8 @@ class QCCode(TBCode):
         if isinstance(expression, (sympy.Integer, sympy.Symbol, sympy.Pow, sympy.Mul)):
             coeff, monomial = expression.as_coeff_Mul()
             member = self.to_group_member(monomial)
-            return abstract.RingMember(self.ring, (int(coeff), member))
+            scalar = int(coeff) if coeff >= 0 else -self.ring.field(-int(coeff))
+            return abstract.RingMember(self.ring, (scalar, member))
 
         # evaluate a polynomial
         element = abstract.RingMember(self.ring)
-- 
2.43.0


From 2e64faaf14bf6635e37431782876f30c5cfe8c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:02 +0000
Subject: [PATCH 54/60] fix: canonical forms of polynomials with coefficients
 other than 1

---
 qldpc/codes/quantum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 523a153..3cb8be1 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -309,15 +309,15 @@ class QCCode(TBCode):
 
         # canonialize and add one term ata time
         new_poly = sympy.core.numbers.Zero()
-        for term in poly.args:
+        for term in sympy.Add.make_args(poly.as_expr()):
             coeff, exponents = self.get_coefficient_and_exponents(term)
 
-            new_term = sympy.core.numbers.One()
+            new_term = coeff
             for symbol, order in zip(self.symbols, orders):
                 new_exponent = exponents.get(symbol, 0) % order
                 if new_exponent > order / 2:
                     new_exponent -= order
-                new_term *= coeff * symbol**new_exponent
+                new_term *= symbol**new_exponent
 
             new_poly += new_term
 
-- 
2.43.0


From 99ff820eb1348cdd0d578d166a0364b8d9159e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:02 +0000
Subject: [PATCH 55/60] fix: BBCodes with a monomial have no toric layout

---
 qldpc/codes/quantum.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 3cb8be1..5b31ee2 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -499,8 +499,12 @@ class BBCode(QCCode):
             return []
 
         # identify individual monomials (terms without their coefficients) in the polynomials
-        monomials_a = [term.as_coeff_Mul()[1] for term in self.poly_a.as_expr().args]
-        monomials_b = [term.as_coeff_Mul()[1] for term in self.poly_b.as_expr().args]
+        monomials_a = [
+            term.as_coeff_Mul()[1] for term in sympy.Add.make_args(self.poly_a.as_expr())
+        ]
+        monomials_b = [
+            term.as_coeff_Mul()[1] for term in sympy.Add.make_args(self.poly_b.as_expr())
+        ]
 
         # identify collections of monomials that can be combined to obtain a toric layout
         toric_params = []
-- 
2.43.0


From 6fa2d8f44be79f07355b31547db793e98663a4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:02 +0000
Subject: [PATCH 56/60] fix: rotated surface codes with one row or column

---
 qldpc/codes/quantum.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 5b31ee2..bceea51 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -1449,7 +1449,10 @@ class SurfaceCode(CSSCode):
                     # no Z-type parity checks on the left/right boundaries
                     checks_z.append(check)
 
-        return np.array(checks_x), np.array(checks_z)
+        return (
+            np.array(checks_x, dtype=int).reshape(-1, rows * cols),
+            np.array(checks_z, dtype=int).reshape(-1, rows * cols),
+        )
 
 
 class ToricCode(CSSCode):
-- 
2.43.0


From 16e12cb9840b3c397e981caa03f959321937e30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:02 +0000
Subject: [PATCH 57/60] fix: refuse LPCodes whose parity checks do not commute

---
 qldpc/codes/quantum.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index bceea51..939225d 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -1023,7 +1023,10 @@ class LPCode(CSSCode):
         # if Hadamard-transforming qudits, conjugate those in the (1, 1) sector by default
         self._default_conjugate = slice(self.sector_size[0, 0], None)
 
-        CSSCode.__init__(self, matrix_x.lift(), matrix_z.lift(), field, is_subsystem_code=False)
+        lifted_matrix_x, lifted_matrix_z = matrix_x.lift(), matrix_z.lift()
+        if not matrix_a.group.is_abelian and np.any(lifted_matrix_x @ lifted_matrix_z.T):
+            raise ValueError("The matrices provided for this LPCode are incompatible")
+        CSSCode.__init__(self, lifted_matrix_x, lifted_matrix_z, field, is_subsystem_code=False)
 
 
 class SLPCode(CSSCode):
-- 
2.43.0


From 60f21dc38b64f8ff726374f369aceae5794ce628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:02 +0000
Subject: [PATCH 58/60] fix: Tanner graphs keep the checks and bits that have
 no edges

---
 qldpc/codes/common.py  | 6 +++++-
 qldpc/codes/quantum.py | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index b9378b8..29a22c8 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -271,6 +271,8 @@ class ClassicalCode(AbstractCode):
         """
         graph = nx.DiGraph()
         matrix = np.asanyarray(matrix)
+        graph.add_nodes_from(Node(index=row, is_data=False) for row in range(matrix.shape[0]))
+        graph.add_nodes_from(Node(index=col, is_data=True) for col in range(matrix.shape[1]))
         for row, col in zip(*np.nonzero(matrix)):
             node_c = Node(index=int(row), is_data=False)
             node_d = Node(index=int(col), is_data=True)
@@ -790,7 +792,9 @@ class QuditCode(AbstractCode):
     def matrix_to_graph(matrix: npt.NDArray[np.int_] | Sequence[Sequence[int]]) -> nx.DiGraph:
         """Convert a parity check matrix into a Tanner graph."""
         graph = nx.DiGraph()
-        matrix = np.reshape(matrix, (len(matrix), 2, -1))
+        matrix = np.reshape(matrix, (len(matrix), 2, np.shape(matrix)[1] // 2))
+        graph.add_nodes_from(Node(index=row, is_data=False) for row in range(matrix.shape[0]))
+        graph.add_nodes_from(Node(index=col, is_data=True) for col in range(matrix.shape[2]))
         for row, xz, col in zip(*np.nonzero(matrix)):
             node_check = Node(index=int(row), is_data=False)
             node_qudit = Node(index=int(col), is_data=True)
diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 939225d..f273e28 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -775,6 +775,7 @@ class HGPCode(CSSCode):
 
         # fix edge orientation, and tag each edge with a QuditOperator
         graph = nx.DiGraph()
+        graph.add_nodes_from(graph_product.nodes)
         for node_fst, node_snd, data in graph_product.edges(data=True):
             # identify the sectors of two nodes
             sector_fst = HGPCode.get_sector(*node_fst)
-- 
2.43.0


From d56a28b307ab83957b7ce288a77dffe8237cf8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:02 +0000
Subject: [PATCH 59/60] fix: operators are only read from strings that
 operators are written as

---
 qldpc/objects.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qldpc/objects.py b/qldpc/objects.py
index f3e9950..4c726f2 100644
--- a/qldpc/objects.py
+++ b/qldpc/objects.py
@@ -131,14 +131,15 @@ class QuditOperator:
 
         val_x, val_z = 0, 0
         factors = string.split("*")
-        if len(factors) > 2:
+        if len(factors) > 1 and sorted(factor[:1] for factor in factors) != ["X", "Z"]:
             raise ValueError(invalid_op)
 
         for factor in factors:
-            pauli = factor[0]
+            pauli = factor[:1]
             val_str = factor[2:-1]
             _factor = f"{pauli}({val_str})"
-            if pauli not in "XYZ" or not val_str.isnumeric() or factor != _factor:
+            is_integer = val_str.removeprefix("-").isdecimal()
+            if pauli not in ["X", "Y", "Z"] or not is_integer or factor != _factor:
                 raise ValueError(invalid_op)
 
             val = int(val_str)
-- 
2.43.0


From 107b212d45fec12d8ed89afb9481d512aa874fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:02 +0000
Subject: [PATCH 60/60] fix: tensor products of chain complexes over group
 rings

---
 qldpc/objects.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/qldpc/objects.py b/qldpc/objects.py
index 4c726f2..b0f006b 100644
--- a/qldpc/objects.py
+++ b/qldpc/objects.py
@@ -456,10 +456,14 @@ class ChainComplex:
         """The boundary operator of this chain complex that acts on the module of a given degree."""
         assert 0 <= degree <= self.num_links + 1
         if degree == 0:
-            return self.field.Zeros((0, self.ops[0].shape[0]))
-        if degree == len(self._ops) + 1:
-            return self.field.Zeros((self.ops[-1].shape[1], 0))
-        return self.ops[degree - 1]
+            zeros = self.field.Zeros((0, self.ops[0].shape[0]))
+        elif degree == len(self._ops) + 1:
+            zeros = self.field.Zeros((self.ops[-1].shape[1], 0))
+        else:
+            return self.ops[degree - 1]
+        if self.group is None:
+            return zeros
+        return abstract.RingArray.build(zeros, abstract.GroupRing(self.group, self.field.order))
 
     @staticmethod
     def tensor_product(  # noqa: C901 ignore complexity check
@@ -497,6 +501,11 @@ class ChainComplex:
         if chain_a.field is not chain_b.field or chain_a.group != chain_b.group:
             raise ValueError("Incompatible chain complexes: different base fields or groups")
         chain_field = chain_a.field
+        chain_ring = (
+            abstract.GroupRing(chain_a.group, chain_field.order)
+            if chain_a.group is not None
+            else None
+        )
 
         def get_degree_pairs(degree: int) -> Iterator[tuple[int, int]]:
             """Pairs of degrees that add up to the given total degree."""
@@ -512,13 +521,14 @@ class ChainComplex:
 
         def get_zero_block(
             row_degs: tuple[int, int], col_degs: tuple[int, int]
-        ) -> npt.NDArray[np.int_]:
+        ) -> npt.NDArray[np.int_] | abstract.RingArray:
             """Get a zero matrix to fill in a block of a total boundary operator."""
             row_deg_a, row_deg_b = row_degs
             col_deg_a, col_deg_b = col_degs
             rows = chain_a.dim(row_deg_a) * chain_b.dim(row_deg_b)
             cols = chain_a.dim(col_deg_a) * chain_b.dim(col_deg_b)
-            return chain_field.Zeros((rows, cols))
+            zeros = chain_field.Zeros((rows, cols))
+            return zeros if chain_ring is None else abstract.RingArray.build(zeros, chain_ring)
 
         ops = []
         for degree in range(1, chain_a.num_links + chain_b.num_links + 1):
@@ -548,5 +558,8 @@ class ChainComplex:
         if chain_a.group is None:
             ops = [op.view(chain_field) for op in ops]
         else:
-            ops = [op.view(abstract.RingArray) for op in ops]
-        return ChainComplex(*ops, skip_validation=True)
+            ops = [abstract.RingArray(op, chain_ring) for op in ops]
+
+        # boundary operators over a non-commutative group algebra may not compose to zero
+        is_commutative = chain_a.group is None or chain_a.group.is_abelian
+        return ChainComplex(*ops, skip_validation=is_commutative)
-- 
2.43.0

