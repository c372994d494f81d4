From 493df3bcb5677293b3275dbc8d21b2b9af124912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 01/60] fix: SymmetricGroup.from_cycle and from_cycles build
 the permutation with those cycles

---
 peyl/permutations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/peyl/permutations.py b/peyl/permutations.py
index 39be001..ac06fe8 100644
--- a/peyl/permutations.py
+++ b/peyl/permutations.py
@@ -365,17 +365,17 @@ class SymmetricGroup:
     def from_cycle(self, cycle: Sequence[int]):
         """Create a permutation from a cycle."""
         assert all(0 <= x < self.n for x in cycle)
-        assert max(collections.Counter(cycle).values()) <= 1
+        assert max(collections.Counter(cycle).values(), default=0) <= 1
         word = list(range(self.n))
         for i in range(len(cycle)):
-            word[cycle[i]] = cycle[(i+1)%self.n]
+            word[cycle[i]] = cycle[(i+1)%len(cycle)]
 
         return Permutation(tuple(word))
 
 
     def from_cycles(self, cycles: Sequence[Sequence[int]]):
         """Create a permutation from a list of cycles (not necessarily disjoint)."""
-        return functools.reduce(operator.mul, map(self.from_cycle, cycles), self.id)
+        return functools.reduce(operator.mul, map(self.from_cycle, cycles), self.id())
 
 
     def elements(self) -> Iterable[Permutation]:
-- 
2.43.0


From 574bd3675fdf2813e32e52c59697eb6bcfb5926d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 02/60] fix: Matrix.row checks its argument against the number
 of rows

---
 peyl/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/matrix.py b/peyl/matrix.py
index e799623..18910fb 100644
--- a/peyl/matrix.py
+++ b/peyl/matrix.py
@@ -117,7 +117,7 @@ class Matrix:
         """
         Return a row of the matrix as a row vector.
         """
-        if not 0 <= row < self.ncols:
+        if not 0 <= row < self.nrows:
             raise IndexError(f"Row {row} is out of bounds for a {self.nrows} x {self.ncols} matrix.")
 
         return Matrix(1, self.ncols, tuple(self[row, j] for j in range(self.ncols)))
-- 
2.43.0


From 152f8f2432294bff2dd7561dc9229cf2f047c1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 03/60] fix: Matrix.is_symmetric compares all pairs of entries

---
 peyl/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/matrix.py b/peyl/matrix.py
index 18910fb..6e7c435 100644
--- a/peyl/matrix.py
+++ b/peyl/matrix.py
@@ -231,7 +231,7 @@ class Matrix:
         return self.nrows == self.ncols
 
     def is_symmetric(self):
-        return all(self[i, j] == self[j, i] for i, j in zip(range(self.nrows), range(self.ncols)))
+        return self.is_square() and all(self[i, j] == self[j, i] for i, j in self.indices())
 
     def __repr__(self):
         """
-- 
2.43.0


From 47f637be797df73d9c73f2f5bfa29b0dff724f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 04/60] fix: TLExtDiag composition puts the left factor on top

---
 peyl/tl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/tl.py b/peyl/tl.py
index 5981422..0bf0965 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -306,7 +306,7 @@ class TLExtDiag:
             if self.bot != other.top:
                 raise ValueError("Trying to compose incompatible TLDiags.")
 
-            seq, bubbles = compose(other.seq, self.seq, self.bot)
+            seq, bubbles = compose(self.seq, other.seq, self.bot)
             return TLExtDiag(self.top, other.bot, seq, self.bubbles + other.bubbles + bubbles)
 
         return NotImplemented
-- 
2.43.0


From 7b179b22fd0856b3a06052f8936dbce9363d3a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 05/60] fix: TLMor.flip respects twist_v=False

---
 peyl/tl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/tl.py b/peyl/tl.py
index 0bf0965..af8d216 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -450,7 +450,7 @@ class TLMor:
         """Apply the upside-down flip to the diagrams. If twist_v is True, also map v -> v^-1."""
         vinv = LPoly(-1, (1,))
         return TLMor(self.bot, self.top, {
-            diag.flip(): coeff.evaluate(vinv) for diag, coeff in self.terms.items()
+            diag.flip(): coeff.evaluate(vinv) if twist_v else coeff for diag, coeff in self.terms.items()
         })
 
     def __neg__(self):
-- 
2.43.0


From 286172c0ee86dc0278bef629190c145b5525cb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 06/60] fix: JonesRep includes the cell module with no
 through-strands

---
 peyl/tl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/tl.py b/peyl/tl.py
index af8d216..5d6af3f 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -550,7 +550,7 @@ class JonesRep:
         assert n >= 0
 
         self.n = n
-        self.cells = [TLCell(n, r) for r in range(n//2)]
+        self.cells = [TLCell(n, r) for r in range(n//2 + 1)]
 
 
 
-- 
2.43.0


From aa4b26128057de66592438793a74ae927260c990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 07/60] fix: TLCell.project_vector takes vectors of the cell
 module

---
 peyl/tl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/tl.py b/peyl/tl.py
index 5d6af3f..e604848 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -516,7 +516,7 @@ class TLCell:
 
     def project_vector(self, mor: TLMor):
         """Return the projection of mor, as a vector, into this cell module."""
-        assert mor.bot == self.n, f"Dimensions {mor.bot=} and {self.n=} incompatible."
+        assert mor.top == self.n, f"Dimensions {mor.top=} and {self.n=} incompatible."
         return mor.quotient(self.n - 2 * self.r)
 
     def project_leftmult_matrix(self, mor: TLMor):
-- 
2.43.0


From df74600fee59294f226c0aa08d15a7655bf47e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 08/60] fix: normal form suffixes do not carry the Garside
 power of the braid they follow

---
 peyl/braid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/braid.py b/peyl/braid.py
index 4e5b6ba..723015a 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -492,7 +492,7 @@ class NFBase(Generic[T]):
         """Return all x such that self * x has no cancellation, and x has the given length."""
         table = self._nf_table(self.n)
         return (
-            self.__class__(self.n, self.power, suffix)
+            self.__class__(self.n, 0, suffix)
             for suffix in table.normal_forms(length=length, following=self.factors[-1] if self.factors else None)
         )
 
-- 
2.43.0


From b06bd506d6dce5e087938d84f1f932f83794a782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 09/60] fix: BraidGroup.all_of_garside_length passes on the
 power

---
 peyl/braid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/braid.py b/peyl/braid.py
index 723015a..ee9236e 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -782,7 +782,7 @@ class BraidGroup:
 
     def all_of_garside_length(self, length: int, power: int = 0) -> Iterable[GNF]:
         """Use GNF.all_of_length() or DGNF.all_of_length() instead."""
-        return GNF.all_of_length(n=self.n, length=length)
+        return GNF.all_of_length(n=self.n, length=length, power=power)
 
     def count_all_of_garside_length(self, length: int):
         """Use GNF.count_all_of_length() or DGNF.count_all_of_length() instead."""
-- 
2.43.0


From 7501d64e6f8d81770b7af2e3818e13eb28cc4400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 10/60] fix: the dual normal form tables can be built for one
 strand

---
 peyl/braid.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/peyl/braid.py b/peyl/braid.py
index ee9236e..188f4bc 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -307,11 +307,11 @@ class NParTable(NFTable[NPar]):
         # Tau
         table.tau_left[0] = list(range(order))
         table.tau_right[0] = list(range(order))
-        table.tau_left[1] = [index[npar.left_complement().left_complement()] for npar in npars]
-        table.tau_right[1] = [index[npar.right_complement().right_complement()] for npar in npars]
-        for i in range(2, n):
-            table.tau_left[i] = [table.tau_left[1][table.tau_left[i-1][x]] for x in range(order)]
-            table.tau_right[i] = [table.tau_right[1][table.tau_right[i-1][x]] for x in range(order)]
+        conj_left = [index[npar.left_complement().left_complement()] for npar in npars]
+        conj_right = [index[npar.right_complement().right_complement()] for npar in npars]
+        for i in range(1, n):
+            table.tau_left[i] = [conj_left[table.tau_left[i-1][x]] for x in range(order)]
+            table.tau_right[i] = [conj_right[table.tau_right[i-1][x]] for x in range(order)]
 
 
         # Pairs
-- 
2.43.0


From 790bc1ea597bd98e159f7745c65c32e9a70b8b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 11/60] fix: generators of the braid group on two strands,
 where they are Garside elements

---
 peyl/braid.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/peyl/braid.py b/peyl/braid.py
index 188f4bc..a22157d 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -367,7 +367,7 @@ class NFBase(Generic[T]):
     def artin_gens(cls, n: int):
         """Return a list of the n-1 Artin generators."""
 
-        return [cls(n, 0, (f,)) for f in cls._nf_table(n).artin_gens]
+        return [cls.from_artin_word(n, [(i, 1)]) for i in range(n - 1)]
 
     def canonical_factors(self) -> tuple[T, ...]:
         """
@@ -647,7 +647,7 @@ class DGNF(NFBase[NPar]):
         id = DGNF.identity(n)
         table = DGNF._nf_table(n)
         return {
-            (i, j): id if i == j else DGNF(n, 0, (table.bkl_gens[(min(i, j), max(i, j))],))
+            (i, j): id if i == j else DGNF.from_npar(table.divs[table.bkl_gens[(min(i, j), max(i, j))]])
             for i in range(n) for j in range(n)
         }
 
@@ -726,8 +726,7 @@ class BraidGroup:
     @functools.cache
     def gens(self) -> tuple[GNF, ...]:
         """Return the Artin generators of the braid group, as GNFs."""
-        table = PermTable.create(self.n)
-        return tuple(GNF(self.n, 0, (table.artin_gens[i],)) for i in range(self.n - 1))
+        return tuple(GNF.artin_gens(self.n))
 
     @functools.cache
     def bkl_gens(self) -> dict[tuple[int, int], DGNF]:
@@ -737,8 +736,8 @@ class BraidGroup:
         """
         table = NParTable.create(self.n)
         return {
-            **{gen: DGNF(self.n, 0, (idx,)) for gen, idx in table.bkl_gens.items()},
-            **{gen[::-1]: DGNF(self.n, 0, (idx,)) for gen, idx in table.bkl_gens.items()},
+            **{gen: DGNF.from_npar(table.divs[idx]) for gen, idx in table.bkl_gens.items()},
+            **{gen[::-1]: DGNF.from_npar(table.divs[idx]) for gen, idx in table.bkl_gens.items()},
             **{(i, i): DGNF.identity(self.n) for i in range(self.n)},
         }
 
-- 
2.43.0


From 2f12c8fd5e6fe7a938609090b92aba0c0f2a582b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 12/60] fix: the dimension of the trivial Jones summand

---
 peyl/braidsearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index 6d9df14..e6cc78d 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -85,7 +85,7 @@ class JonesSummand:
 
     def dimension(self) -> int:
         """The dimension of this representation."""
-        return math.comb(self.n, self.r) - math.comb(self.n, self.r - 1)
+        return tl.cell_dimension(self.n, self.r)
 
     @functools.cache
     def id(self):
-- 
2.43.0


From 95ece116d30d4ee4baef895640b89189608ca63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 13/60] fix: the search tracker can validate its buckets

---
 peyl/braidsearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index e6cc78d..8240651 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -408,7 +408,7 @@ class Tracker:
         """Ensure that the braids in each bucket evaluate to the matrices stored there."""
         for bucket in self.buckets:
             braids, images = self.bucket_braids_images(bucket)
-            actual = evaluate_braids_of_same_length(BraidGroup(braids[0].n), braids, p=self.p)
+            actual = evaluate_braids_of_same_length(self.rep, braids)
             if not np.all(images == actual):
                 print(f"A braid image is wrong in bucket {bucket}")
                 for i in range(len(braids)):
-- 
2.43.0


From e4c2bc7cd9a127a79684eb20fdc34106cb31fada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 14/60] fix: polymats of the inverse Artin generators, which
 have negative powers of v

---
 peyl/jonesrep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index 24cd2bc..d4527e5 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -116,8 +116,8 @@ class RepBase:
         are the images of their inverses.
         """
         gens, invs = self.artin_gens_invs()
-        matgens = polymat.pack([polymat.from_matrix(x, dtype=self.polymat_dtype()) for x in gens])
-        matinvs = polymat.pack([polymat.from_matrix(x, dtype=self.polymat_dtype()) for x in invs])
+        matgens = polymat.pack([polymat.from_matrix(x, proj=True, dtype=self.polymat_dtype()) for x in gens])
+        matinvs = polymat.pack([polymat.from_matrix(x, proj=True, dtype=self.polymat_dtype()) for x in invs])
         if self.p != 0:
             matgens %= self.p
             matinvs %= self.p
-- 
2.43.0


From 5b286227c57f064b119c6165b7aa2ae7af6fbe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 15/60] fix: powers of the Garside element are reduced mod p

---
 peyl/jonesrep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index d4527e5..5016579 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -136,8 +136,8 @@ class RepBase:
         """
         table = cls._nf_table(self.n)
         assert 0 <= power < table.tau_order, "Only reduced powers should be passed to this function."
-        mat = self.evaluate_artin_word(table.artin_word[table.D])
-        return polymat.projectivise(polymat.from_matrix(mat ** power, proj=True))
+        mat = self.evaluate_artin_word(table.artin_word[table.D] * power)
+        return polymat.projectivise(polymat.from_matrix(mat, proj=True))
 
     def polymat_evaluate_artin_word(self, word: Sequence[tuple[int, int]]):
         """Evaluate a word in the Artin generators in this representation, as a polymat."""
-- 
2.43.0


From b72439714a03353a4635d49d8071bff7d9713b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 16/60] fix: evaluating a batch of empty factor sequences gives
 one image for each

---
 peyl/jonesrep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index 5016579..1aafe8b 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -204,7 +204,7 @@ class RepBase:
         assert all(0 <= x < order for seq in sequences for x in seq)
 
         # Evaluate the braids.
-        result = polymat.pack([self._polymat_braid_factor(cls, table.id)])
+        result = polymat.pack([self._polymat_braid_factor(cls, table.id) for _ in sequences])
         for i in range(length):
             images = polymat.pack([self._polymat_braid_factor(cls, seq[i]) for seq in sequences])
             result = self.polymat_mul(result, images)
-- 
2.43.0


From 52dd6b5da8bd49d650e0aa0bedc7b7e335129781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 17/60] fix: the LKB representation returns the inverses of its
 generators

---
 peyl/jonesrep.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index 1aafe8b..1a475b5 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -327,4 +327,12 @@ class LKBRep(RepBase):
             ])
             gens += [mat]
 
-        return gens, gens
+        # Each generator X satisfies the cubic (X - 1)(X + q)(X - tq^2) = X^3 - aX^2 + bX - c = 0.
+        a, b, c = 1 - q + t * q**2, t * q**2 - q - t * q**3, -t * q**3
+        id = Matrix.identity(self.dimension())
+        invs = [
+            (gen * gen - gen.map(lambda x: a * x) - id.map(lambda x: -b * x)).map(lambda x: x * c**-1)
+            for gen in gens
+        ]
+
+        return gens, invs
-- 
2.43.0


From 4927e93f8bbcfa9f51a6987f8cff7c9e2f2dcb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 18/60] fix: the projlen of a zero matrix is zero

---
 peyl/polymat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/polymat.py b/peyl/polymat.py
index 3483d90..5a7c492 100644
--- a/peyl/polymat.py
+++ b/peyl/polymat.py
@@ -276,7 +276,7 @@ def projlen(A: npt.NDArray) -> npt.NDArray:
     nonzeros = np.any(A, axis=(-3, -2))
     starts = np.argmax(nonzeros, axis=-1)
     ends = nonzeros.shape[-1] - np.argmax(nonzeros[..., ::-1], axis=-1)
-    return ends - starts
+    return (ends - starts) * nonzeros.any(axis=-1)
 
 def proj_starts_ends(A: npt.NDArray) -> Tuple[npt.NDArray, npt.NDArray]:
     """
-- 
2.43.0


From 1c685d63f94e0e6ef023eb19c713728bb30f107d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 19/60] fix: Poly shows the value of its constant term

---
 peyl/poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/poly.py b/peyl/poly.py
index 7346681..0e39069 100644
--- a/peyl/poly.py
+++ b/peyl/poly.py
@@ -71,7 +71,7 @@ class Poly:
 
             sign = ' + ' if (c > 0 and parts) else ' - ' if (c < 0 and parts) else '' if c > 0 else '-'
             term = '' if i == 0 else 'x' if i == 1 else f'x^{i}'
-            coeff = '1' if (i == 0 and term == '') else '' if abs(c) == 1 else f'{abs(c)}'
+            coeff = f'{abs(c)}' if (i == 0 and term == '') else '' if abs(c) == 1 else f'{abs(c)}'
             parts += [sign + coeff + term]
 
         return f"Poly('{''.join(parts)}')"
-- 
2.43.0


From 8a52b0c4dafada38c2eeaea90d75c1d08282be77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 20/60] fix: weighted reservoir sampling includes items in
 proportion to weight

---
 peyl/bucketing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/bucketing.py b/peyl/bucketing.py
index 61aeec5..06607da 100644
--- a/peyl/bucketing.py
+++ b/peyl/bucketing.py
@@ -330,7 +330,7 @@ class Tracker:
                     if not bucket.is_full():
                         bucket.append_braid(braid, image, weight)
                     else:
-                        if self.rand.random() <= weight / bucket.reservoir_weight:
+                        if self.rand.random() * bucket.reservoir_weight < bucket.capacity * weight:
                             replace = self.rand.randrange(0, bucket.capacity)
                             bucket.replace_braid(replace, braid, image, weight)
 
-- 
2.43.0


From 0ace0a970f24af612ae6dfb47b794721ea123d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 21/60] fix: descendants of a bucket of braids of canonical
 length zero

---
 peyl/bucketing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/peyl/bucketing.py b/peyl/bucketing.py
index 06607da..1ef727d 100644
--- a/peyl/bucketing.py
+++ b/peyl/bucketing.py
@@ -360,21 +360,21 @@ class Tracker:
 
         # Let's sort this bucket first, so that elements ending in the same normal form factor appear next to each other.
         bucket_braids, bucket_images = self.buckets[tag].braids_images()
-        last_factors = np.array([braid.factors[-1] for braid in bucket_braids])
+        last_factors = np.array([braid.factors[-1] if braid.factors else -1 for braid in bucket_braids])
         sorted_indices = np.argsort(last_factors)
 
         sorted_braids = [bucket_braids[i] for i in sorted_indices]
         sorted_images = bucket_images[sorted_indices]
 
         # Now we can iterate through each group ending in the same factor.
-        for last, indices in itertools.groupby(range(len(sorted_braids)), key=lambda i: sorted_braids[i].factors[-1]):
+        for last, indices in itertools.groupby(range(len(sorted_braids)), key=lambda i: sorted_braids[i].factors[-1:]):
             index_list = list(indices)
             chunk = slice(min(index_list), max(index_list)+1)
             braids = sorted_braids[chunk]
             left = sorted_images[chunk]
 
             # Cache suffixes and their images depending on the last factor.
-            last_factor = braids[0].canonical_factor(-1)
+            last_factor = (type(braids[0]), last)
             if (length, last_factor) not in self.suffix_cache:
                 suffixes = list(braids[0].nf_suffixes(length))
                 rights = self.rep.polymat_evaluate_braids_of_same_length(suffixes)
-- 
2.43.0


From 41eee6a5c97470a2ec0b6fb7010ae04e5b1c5f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:32 +0000
Subject: [PATCH 22/60] fix: subtracting something else from a Matrix is an
 error

---
 peyl/matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peyl/matrix.py b/peyl/matrix.py
index 6e7c435..5e9ada4 100644
--- a/peyl/matrix.py
+++ b/peyl/matrix.py
@@ -215,6 +215,8 @@ class Matrix:
                 raise ValueError("Cannot subtract incompatibly sized matrices.")
             return Matrix(self.nrows, self.ncols, tuple(a - b for a, b in zip(self.data, other.data)))
 
+        return NotImplemented
+
     def trace(self):
         """
         The trace of a square matrix is the sum of the diagonal entries.
-- 
2.43.0


From 0b3781a07fae3fa4199bda00e92e30f581a99b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:32 +0000
Subject: [PATCH 23/60] fix: multiplying a Poly by something else is an error

---
 peyl/poly.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peyl/poly.py b/peyl/poly.py
index 0e39069..4c4a80d 100644
--- a/peyl/poly.py
+++ b/peyl/poly.py
@@ -96,6 +96,8 @@ class Poly:
                 result[i+j] += c*d
             return Poly(*result)
 
+        return NotImplemented
+
     __radd__ = __add__
     __rmul__ = __mul__
 
-- 
2.43.0


From 17ba85f9b6f3a9d0318e3d88b69beac14e6f691a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 24/60] fix: symmetric groups on a negative number of points
 are rejected

---
 peyl/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/permutations.py b/peyl/permutations.py
index ac06fe8..083b8a7 100644
--- a/peyl/permutations.py
+++ b/peyl/permutations.py
@@ -339,7 +339,7 @@ def is_parallel_descending_cycles(perm: Sequence[int]) -> bool:
 class SymmetricGroup:
     n: int
 
-    def __post__init__(self):
+    def __post_init__(self):
         assert self.n >= 0
 
     @functools.cache
-- 
2.43.0


From 979055ff1619e7cca8f8c6900e4905212b7d3e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 25/60] fix: words which are not permutations are rejected by
 Permutation

---
 peyl/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/permutations.py b/peyl/permutations.py
index 083b8a7..c7d125f 100644
--- a/peyl/permutations.py
+++ b/peyl/permutations.py
@@ -387,7 +387,7 @@ class SymmetricGroup:
 class Permutation:
     word: tuple[int, ...]
 
-    def __post__init__(self):
+    def __post_init__(self):
         assert is_permutation(self.word)
 
     def group(self):
-- 
2.43.0


From 73ce3097a2e60ea0c654eec52b09000a10ad8f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 26/60] fix: NPar.from_components takes iterators, as its
 signature says

---
 peyl/noncrossing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/peyl/noncrossing.py b/peyl/noncrossing.py
index 91d2e8f..8dbbba2 100644
--- a/peyl/noncrossing.py
+++ b/peyl/noncrossing.py
@@ -137,6 +137,7 @@ class NPar:
         >>> NPar.coarsest(4) == NPar.from_components(4, [[0, 1, 3, 2]])
         True
         """
+        components = [list(comp) for comp in components]
         if not are_pairwise_disjoint(components):
             raise ValueError(f"The components {components} do not form a partition.")
 
-- 
2.43.0


From 3c15b09c5382f70df48bb1797af2732d5160d103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 27/60] fix: involutions which are not crossingless matchings
 are rejected by NPar

---
 peyl/noncrossing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/noncrossing.py b/peyl/noncrossing.py
index 8dbbba2..b321559 100644
--- a/peyl/noncrossing.py
+++ b/peyl/noncrossing.py
@@ -97,7 +97,7 @@ class NPar:
     n: int
     inv: tuple[int, ...]
 
-    def __post__init__(self):
+    def __post_init__(self):
         """Check that inv is really an involution of the right kind."""
         assert len(self.inv) == 2*self.n
         assert tl.is_crossingless_matching(self.inv)
-- 
2.43.0


From 1bf2eec18b93d936a5410a2278657c945409827b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 28/60] fix: composing a TLDiag with something else is an error

---
 peyl/tl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peyl/tl.py b/peyl/tl.py
index e604848..517f6a8 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -193,6 +193,8 @@ class TLDiag:
             seq, bubbles = compose(upper.seq, lower.seq, upper.bot)
             return TLDiag(upper.top, lower.bot, seq), bubbles
 
+        return NotImplemented
+
     def __matmul__(self, other: TLDiag) -> TLDiag:
         """Horizontal composition of TL diagrams, returning a new TLDiag."""
         return TLDiag(
-- 
2.43.0


From 45844726f16de034a0e9f500fa6efd159473ad08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:44 +0000
Subject: [PATCH 29/60] fix: only endomorphisms have a Markov trace

---
 peyl/tl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/peyl/tl.py b/peyl/tl.py
index 517f6a8..61cfcf5 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -394,6 +394,9 @@ class TLMor:
 
     def trace(self):
         """The Markov trace of this element."""
+        if self.top != self.bot:
+            raise ValueError("Cannot take the trace of a morphism in a non-algebra.")
+
         result = LPoly(0, ())
         for diag, coeff in self.terms.items():
             result += coeff * Q2**trace_count(diag.seq)
-- 
2.43.0


From f1c4b5a6c1d6cdec5ba7ba6d6a88b28d7aed07c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:47 +0000
Subject: [PATCH 30/60] fix: cell modules reject morphisms of the wrong type

---
 peyl/tl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peyl/tl.py b/peyl/tl.py
index 61cfcf5..033574f 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -522,6 +522,7 @@ class TLCell:
     def project_vector(self, mor: TLMor):
         """Return the projection of mor, as a vector, into this cell module."""
         assert mor.top == self.n, f"Dimensions {mor.top=} and {self.n=} incompatible."
+        assert mor.bot == self.n - 2 * self.r, f"Dimensions {mor.bot=} and {self.n=}, {self.r=} incompatible."
         return mor.quotient(self.n - 2 * self.r)
 
     def project_leftmult_matrix(self, mor: TLMor):
@@ -529,6 +530,7 @@ class TLCell:
         Left-multiplication by mor induces an action on the cell module. Return the matrix of this action, in the
         order as given by .basis().
         """
+        assert mor.top == mor.bot == self.n, f"Dimensions {mor.top=}, {mor.bot=} and {self.n=} incompatible."
         dim = self.dim()
         rows = [[None] * dim for _ in range(dim)]
         for j, vj in enumerate(self.basis_diagrams()):
-- 
2.43.0


From 40a8b84ac730e5647c2b69bf0866952ee07737d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:56 +0000
Subject: [PATCH 31/60] fix: matrices made from polymats have exact integers,
 which do not overflow

---
 peyl/polymat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/polymat.py b/peyl/polymat.py
index 5a7c492..10114d7 100644
--- a/peyl/polymat.py
+++ b/peyl/polymat.py
@@ -150,7 +150,7 @@ def to_matrix(A):
     assert len(A.shape) == 3
     I, J, _ = A.shape
     return Matrix.from_rows([
-        [LPoly(0, A[i, j, :]) for j in range(J)]
+        [LPoly(0, A[i, j, :].tolist()) for j in range(J)]
         for i in range(I)
     ])
 
-- 
2.43.0


From 37e70040b802dad6f9e7f0afe530b48a6c10bb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:57 +0000
Subject: [PATCH 32/60] fix: polymats of matrices which have both integers and
 Laurent polynomials

---
 peyl/polymat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/peyl/polymat.py b/peyl/polymat.py
index 10114d7..0390763 100644
--- a/peyl/polymat.py
+++ b/peyl/polymat.py
@@ -162,6 +162,7 @@ def from_matrix(mat: Matrix, proj: bool = False, dtype: npt.DTypeLike = np.int64
     if all(isinstance(x, int) for x in mat.data):
         return np.array(mat.rows())[..., None]
 
+    mat = mat.map(LPoly.coerce)
     if all(isinstance(x, LPoly) for x in mat.data):
         if all(x.is_zero() for x in mat.data):
             return np.zeros((mat.nrows, mat.ncols, 1), dtype=int)
-- 
2.43.0


From 89f6308a8ffe94983fb9946356e23b17c1d26e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:57 +0000
Subject: [PATCH 33/60] fix: factors which index no divisor are not normal
 forms

---
 peyl/braid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peyl/braid.py b/peyl/braid.py
index a22157d..12edeac 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -84,6 +84,8 @@ class NFTable(Generic[T]):
         no D's appear at the start, no identities appear at the back, and
         every other pair (x, y) is in normal form.
         """
+        if not all(0 <= x < self.order for x in factors):
+            return False
         for i in range(len(factors) - 1):
             if not self.is_normalised[factors[i]][factors[i+1]]:
                 return False
-- 
2.43.0


From 30610b044aa104f22b1778dc605a4f970f9fb162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:58 +0000
Subject: [PATCH 34/60] fix: negative indices of generators in words are
 rejected

---
 peyl/braid.py    | 4 ++++
 peyl/jonesrep.py | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/peyl/braid.py b/peyl/braid.py
index 12edeac..e2e64a3 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -566,6 +566,8 @@ class GNF(NFBase[Permutation]):
         factors = []
         delta_pows = []
         for i, e in word:
+            if not 0 <= i < n - 1:
+                raise IndexError(f"There is no generator {i} of the braid group on {n} strands.")
             if e >= 0:
                 factors += [table.artin_gens[i]] * e
                 delta_pows += [0] * e
@@ -676,6 +678,8 @@ class DGNF(NFBase[NPar]):
         factors = []
         delta_pows = []
         for i, e in word:
+            if not 0 <= i < n - 1:
+                raise IndexError(f"There is no generator {i} of the braid group on {n} strands.")
             if e >= 0:
                 factors += [table.artin_gens[i]] * e
                 delta_pows += [0] * e
diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index 1a475b5..22d9715 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -83,6 +83,8 @@ class RepBase:
 
     def evaluate_artin_word(self, word: Sequence[tuple[int, int]]):
         """Evaluate a word in the Artin generators in this representation."""
+        word = list(word)
+        assert all(0 <= i < self.n - 1 for i, _ in word), "Generator out of range."
         gens, invs = self.artin_gens_invs()
         product: Matrix = functools.reduce(operator.mul, [gens[i]**e if e >= 0 else invs[i]**abs(e) for i, e in word], self.id())
         if self.p != 0:
@@ -144,6 +146,7 @@ class RepBase:
         gens, invs = self.polymat_artin_gens_invs()
         product = self.polymat_id()
         for i, e in word:
+            assert 0 <= i < self.n - 1, "Generator out of range."
             for _ in range(abs(e)):
                 product = polymat.mul(product, gens[i] if e >= 0 else invs[i])
                 if self.p != 0:
-- 
2.43.0


From c2dd96c71b66057fad2a25cceb6d8e915b13ea16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:59 +0000
Subject: [PATCH 35/60] fix: braids on another number of strands than the
 representation are not evaluated

---
 peyl/braidsearch.py | 3 +++
 peyl/jonesrep.py    | 1 +
 2 files changed, 4 insertions(+)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index 8240651..d444fea 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -147,6 +147,7 @@ def symmetric_table(rep: JonesSummand):
 
 def evaluate_braid_factors(rep: JonesSummand, braid: GNF):
     """Evaluate the canonical factors of a braid in the given representation."""
+    assert isinstance(braid, GNF) and braid.n == rep.n
     inf, factors = braid.canonical_decomposition()
     start = rep.id()
 
@@ -165,6 +166,7 @@ def evaluate_braids_of_same_length(rep: JonesSummand, braids: Sequence[GNF]) ->
     """
     length = braids[0].garside_length()
     assert all(braid.garside_length() == length for braid in braids)
+    assert all(braid.n == rep.n for braid in braids)
 
     factors = [braid.canonical_factors() for braid in braids]
     table = symmetric_table(rep)
@@ -188,6 +190,7 @@ def evaluate_prefixes_of_same_length(rep: JonesSummand, braids: Sequence[GNF]) -
     """
     length = braids[0].garside_length()
     assert all(braid.garside_length() == length for braid in braids)
+    assert all(braid.n == rep.n for braid in braids)
 
     factors = [braid.canonical_factors() for braid in braids]
     table = symmetric_table(rep)
diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index 22d9715..0d2c5fe 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -174,6 +174,7 @@ class RepBase:
         length = braids[0].canonical_length()
         cls = braids[0].__class__
         assert all(braid.canonical_length() == length and braid.__class__ == cls for braid in braids)
+        assert all(braid.n == self.n for braid in braids)
 
         # First get all the powers of delta packed together.
         table = cls._nf_table(self.n)
-- 
2.43.0


From dd4f00d833ca225c54b0650eeceff245d3f465c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:59 +0000
Subject: [PATCH 36/60] fix: there are no normal forms of negative length to
 count or sample

---
 peyl/braid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peyl/braid.py b/peyl/braid.py
index e2e64a3..3b7fb26 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -175,6 +175,7 @@ class NFTable(Generic[T]):
         """
         Count the number of normal forms that the same call to normal_forms() would produce.
         """
+        assert length >= 0
         if length == 0:
             return 1
 
@@ -193,6 +194,7 @@ class NFTable(Generic[T]):
 
     def sample(self, length: int, rand: random.Random) -> tuple[int, ...]:
         """Sample a normal form of the given length."""
+        assert length >= 0
         last = self.D
         factors = [-1] * length
         for i in range(length):
-- 
2.43.0


From d62daad6082fa9ba510715452be32a646327042f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:00 +0000
Subject: [PATCH 37/60] fix: two-rowed partitions have no negative parts

---
 peyl/braidsearch.py | 2 +-
 peyl/jonesrep.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index d444fea..fede333 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -72,7 +72,7 @@ class JonesSummand:
 
     def __post_init__(self):
         assert self.n >= 1
-        assert self.n - 2 * self.r >= 0
+        assert 0 <= self.r and self.n - 2 * self.r >= 0
         assert self.p >= 0
 
     def __repr__(self):
diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index 0d2c5fe..768ddae 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -232,7 +232,7 @@ class JonesCellRep(RepBase):
         super().__init__()
 
         assert n >= 1
-        assert n - 2 * r >= 0
+        assert 0 <= r and n - 2 * r >= 0
         assert p >= 0
 
         self.n = n
-- 
2.43.0


From 2665ea7db7345cd7828f3854bc952ea4f7aa0816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:01 +0000
Subject: [PATCH 38/60] fix: exponents must be integers

---
 peyl/braid.py  | 1 +
 peyl/lpoly.py  | 2 ++
 peyl/matrix.py | 2 ++
 peyl/poly.py   | 2 ++
 peyl/tl.py     | 2 ++
 5 files changed, 9 insertions(+)

diff --git a/peyl/braid.py b/peyl/braid.py
index 3b7fb26..532a9cf 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -443,6 +443,7 @@ class NFBase(Generic[T]):
         return self.__class__(self.n, delta_pow + d, tuple(normalised))
 
     def __pow__(self: NF, exp: int) -> NF:
+        exp = operator.index(exp)
         acc = self.identity(self.n)
         if exp == 0:
             return acc
diff --git a/peyl/lpoly.py b/peyl/lpoly.py
index 2db5763..d4a84a0 100644
--- a/peyl/lpoly.py
+++ b/peyl/lpoly.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import dataclasses
 import itertools
+import operator
 from typing import Callable, Literal, Sequence
 
 from .poly import Poly
@@ -159,6 +160,7 @@ class LPoly:
     __rmul__ = __mul__
 
     def __pow__(self, n: int):
+        n = operator.index(n)
         if n < 0:
             if self.coeffs == (1,) or self.coeffs == (-1,):
                 return LPoly(-self.val, self.coeffs)**-n
diff --git a/peyl/matrix.py b/peyl/matrix.py
index 5e9ada4..05154ac 100644
--- a/peyl/matrix.py
+++ b/peyl/matrix.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import dataclasses
+import operator
 from typing import Callable
 
 
@@ -184,6 +185,7 @@ class Matrix:
         return NotImplemented
 
     def __pow__(self, exp: int):
+        exp = operator.index(exp)
         if self.nrows != self.ncols:
             raise ValueError("Can only take powers of square matrices")
 
diff --git a/peyl/poly.py b/peyl/poly.py
index 4c4a80d..5b51aef 100644
--- a/peyl/poly.py
+++ b/peyl/poly.py
@@ -9,6 +9,7 @@ from __future__ import annotations
 import dataclasses
 import functools
 import itertools
+import operator
 
 
 @dataclasses.dataclass(init=False, eq=True)
@@ -102,6 +103,7 @@ class Poly:
     __rmul__ = __mul__
 
     def __pow__(self, n: int):
+        n = operator.index(n)
         if n < 0:
             raise ValueError("Cannot invert a polynomial.")
         if n == 0:
diff --git a/peyl/tl.py b/peyl/tl.py
index 033574f..aa5fd2c 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -15,6 +15,7 @@ from __future__ import annotations
 import dataclasses
 import functools
 import math
+import operator
 from typing import Iterable, Sequence
 
 from .lpoly import LPoly
@@ -471,6 +472,7 @@ class TLMor:
         return NotImplemented
 
     def __pow__(self, exp: int):
+        exp = operator.index(exp)
         if self.top != self.bot:
             raise ValueError("Cannot raise a morphism to the power in a non-algebra")
 
-- 
2.43.0


From e8b965105d1f775585244f15808b27b753b0e1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:01 +0000
Subject: [PATCH 39/60] fix: a TLDiag is juxtaposed with a TLDiag only

---
 peyl/tl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/peyl/tl.py b/peyl/tl.py
index aa5fd2c..e45f0cb 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -198,6 +198,9 @@ class TLDiag:
 
     def __matmul__(self, other: TLDiag) -> TLDiag:
         """Horizontal composition of TL diagrams, returning a new TLDiag."""
+        if not isinstance(other, TLDiag):
+            return NotImplemented
+
         return TLDiag(
             self.top + other.top,
             self.bot + other.bot,
-- 
2.43.0


From d7aefd162c3f7fc1c65da03d51c57d21eec0589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:02 +0000
Subject: [PATCH 40/60] fix: a TLExtDiag has at least zero bubbles

---
 peyl/tl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/peyl/tl.py b/peyl/tl.py
index e45f0cb..6f433e6 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -280,6 +280,7 @@ class TLExtDiag:
 
         self.top = top
         self.bot = bot
+        assert bubbles >= 0
         self.seq = tuple(seq)
         self.bubbles = bubbles
 
-- 
2.43.0


From ff834aed481e8495cdb5970b62774b4d1077189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:03 +0000
Subject: [PATCH 41/60] fix: coordinate vectors must have their index in range

---
 peyl/matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peyl/matrix.py b/peyl/matrix.py
index 05154ac..b7fdc34 100644
--- a/peyl/matrix.py
+++ b/peyl/matrix.py
@@ -102,6 +102,8 @@ class Matrix:
     @classmethod
     def col_coord_vector(cls, n, i):
         """Return the coordinate vector e_i in n-dimensional space."""
+        if not 0 <= i < n:
+            raise IndexError(f"There is no coordinate vector {i} in {n}-dimensional space.")
         return cls(n, 1, tuple(1 if i == j else 0 for j in range(n)))
 
     @classmethod
-- 
2.43.0


From 19e9c85e91ad4e355825b1448fce5164130f758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:03 +0000
Subject: [PATCH 42/60] fix: sums of a Poly and something else are rejected

---
 peyl/poly.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/peyl/poly.py b/peyl/poly.py
index 5b51aef..b91a02a 100644
--- a/peyl/poly.py
+++ b/peyl/poly.py
@@ -78,10 +78,14 @@ class Poly:
         return f"Poly('{''.join(parts)}')"
 
     def __add__(self, other: int | Poly) -> Poly:
+        if not isinstance(other, (int, Poly)):
+            return NotImplemented
         coeffs = [other] if isinstance(other, int) else other.coeffs
         return Poly(*(c + d for c, d in itertools.zip_longest(self.coeffs, coeffs, fillvalue=0)))
 
     def __sub__(self, other: int | Poly) -> Poly:
+        if not isinstance(other, (int, Poly)):
+            return NotImplemented
         coeffs = [other] if isinstance(other, int) else other.coeffs
         return Poly(*(c - d for c, d in itertools.zip_longest(self.coeffs, coeffs, fillvalue=0)))
 
-- 
2.43.0


From ab4ed2a34578d38262099a01ab73553663c39f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:16 +0000
Subject: [PATCH 43/60] fix: an unknown reservoir method is rejected

---
 peyl/bucketing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peyl/bucketing.py b/peyl/bucketing.py
index 1ef727d..936d4c1 100644
--- a/peyl/bucketing.py
+++ b/peyl/bucketing.py
@@ -201,6 +201,8 @@ class Tracker:
         self.reservoir_weight_braidstat = reservoir_weight
 
         # Method used for reservoir sampling.
+        if reservoir_method not in ('GreedyFirst', 'Uniform', 'AChao', 'EvictMin'):
+            raise ValueError(f"Unknown reservoir method {reservoir_method!r}.")
         self.reservoir_method = reservoir_method
 
         # If rand is not None, then reservoir sampling will be used for the buckets.
-- 
2.43.0


From 6ef4a3ca917794eafec0389df81b4d5be3e21d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:10 +0000
Subject: [PATCH 44/60] fix: products and packs of polymats of mixed types lose
 nothing

---
 peyl/polymat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peyl/polymat.py b/peyl/polymat.py
index 0390763..4d50044 100644
--- a/peyl/polymat.py
+++ b/peyl/polymat.py
@@ -70,7 +70,7 @@ def mul(A: npt.NDArray, B: npt.NDArray, quotdeg: int = None):
 
     # This approach seems to be a bit faster than making a large shape of zeros of the right size
     # and filling in each part.
-    parts = np.zeros((*prefix, I, K, P), dtype=A.dtype)
+    parts = np.zeros((*prefix, I, K, P), dtype=np.result_type(A, B))
     for d in range(P):
         parts[..., d] = sum(A[..., i] @ B[..., d - i] for i in range(d + 1) if i < D and d - i < E)
 
@@ -94,7 +94,7 @@ def pack(As: Sequence[npt.NDArray]):
     # I can't find a way to easily "pad by zeros" along a particular axis in numpy. But by now we
     # know the final shape (len(As), I, J, D) of the returned array, so let's just make an array
     # of zeros and fill it in piece by piece.
-    result = np.zeros((len(As), I, J, D), dtype=As[0].dtype)
+    result = np.zeros((len(As), I, J, D), dtype=np.result_type(*As))
     for i, A in enumerate(As):
         result[i, :, :, :A.shape[-1]] = A
 
-- 
2.43.0


From 74b72ecff5fbb9149f3872412d853af4875e8455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:20 +0000
Subject: [PATCH 45/60] fix: from_matrix gives integer matrices the type asked
 for, not floats

---
 peyl/polymat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peyl/polymat.py b/peyl/polymat.py
index 4d50044..d25f63c 100644
--- a/peyl/polymat.py
+++ b/peyl/polymat.py
@@ -160,12 +160,12 @@ def from_matrix(mat: Matrix, proj: bool = False, dtype: npt.DTypeLike = np.int64
     If proj is true, then the matrix will be multiplied by a power of v, making it a polynomial matrix first.
     """
     if all(isinstance(x, int) for x in mat.data):
-        return np.array(mat.rows())[..., None]
+        return np.array(mat.data, dtype=dtype).reshape(mat.nrows, mat.ncols, 1)
 
     mat = mat.map(LPoly.coerce)
     if all(isinstance(x, LPoly) for x in mat.data):
         if all(x.is_zero() for x in mat.data):
-            return np.zeros((mat.nrows, mat.ncols, 1), dtype=int)
+            return np.zeros((mat.nrows, mat.ncols, 1), dtype=dtype)
 
         minval = min(x.valuation() for x in mat.data if not x.is_zero())
         if minval < 0:
-- 
2.43.0


From 501f5b3580d1f08a734bdf6638b0c9145ee56566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:49 +0000
Subject: [PATCH 46/60] fix: substrings of a bucket include prefixes and
 suffixes

---
 peyl/braidsearch.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index fede333..db75862 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -509,14 +509,15 @@ class Tracker:
                 self.add_braids_images([braid * suffix.substring(0, i) for _, braid, suffix in pairs], images)
 
     def substrings(self, bucket: Tuple):
-        """Try all substrings of a bucket of length 2 or more."""
+        """Try all (proper) substrings of a bucket of length 2 or more."""
         assert bucket in self.buckets
         braids = self.bucket_braids[bucket]
         length = braids[0].garside_length()
-        for i in range(1, length - 1):
+        for i in range(length - 1):
             images = evaluate_prefixes_of_same_length(self.rep, [braid.substring(i, length) for braid in braids])
-            for j in range(i+2, length - 1):
-                self.add_braids_images([braid.substring(i, j) for braid in braids], images[j-i])
+            for j in range(i+2, length + 1):
+                if j - i < length:
+                    self.add_braids_images([braid.substring(i, j) for braid in braids], images[j-i])
 
     def bootstrap_exhaustive(self, upto_length: int):
         """Iterate over all braids up to the given Garside length to bootstrap the buckets."""
-- 
2.43.0


From 66aa0c8b09593c485c7682cab34386f3f73a9edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:42 +0000
Subject: [PATCH 47/60] fix: multiply modulo p in 64 bits, as sums of products
 of 13-bit residues overflow 32

---
 peyl/braidsearch.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index db75862..a7f3e1f 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -106,9 +106,12 @@ class JonesSummand:
 
     def mul(self, left: npt.NDArray, right: npt.NDArray):
         """Multiplication in the representation (performs mod p if necessary, and projectivisation)."""
-        product = polymat.mul(left, right)
         if self.p != 0:
-            product = product % self.p
+            # Sums of products of elements of F_p may overflow 32 bits, so multiply in 64 bits.
+            product = polymat.mul(left.astype(np.int64), right.astype(np.int64)) % self.p
+            product = product.astype(self.dtype())
+        else:
+            product = polymat.mul(left, right)
 
         return polymat.projectivise(product)
 
-- 
2.43.0


From 3904a3fd0cf9539dcbaea4de3198566fbae74e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:44 +0000
Subject: [PATCH 48/60] fix: recognise permutations given as fixed-width
 integers

1 << x overflows when x is a numpy integer and 2^x does not fit its type, so
that permutations of 64 points (8, for 8-bit integers) were refused.
---
 peyl/permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/permutations.py b/peyl/permutations.py
index c7d125f..d5352f4 100644
--- a/peyl/permutations.py
+++ b/peyl/permutations.py
@@ -41,7 +41,7 @@ def is_permutation(word: Sequence[int]):
     if min(word) != 0 or max(word) != len(word) - 1:
         return False
 
-    mask = functools.reduce(operator.or_, (1 << x for x in word), 0)
+    mask = functools.reduce(operator.or_, (1 << operator.index(x) for x in word), 0)
     return mask == 2**len(word) - 1
 
 
-- 
2.43.0


From 2cff4e13d8a32f763a59cfc8e4370dd4af077bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:05 +0000
Subject: [PATCH 49/60] fix: evaluate exactly modulo a prime given as a
 fixed-width integer

A prime read from a table of results is a numpy integer. Entries reduced modulo
it were numpy integers too, and overflowed in products of many matrices.
---
 peyl/jonesrep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index 768ddae..b7d66d7 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -237,7 +237,7 @@ class JonesCellRep(RepBase):
 
         self.n = n
         self.r = r
-        self.p = p
+        self.p = operator.index(p)
 
 
     def __repr__(self):
-- 
2.43.0


From 5ee2053d83b48ab571f9ddf17ede8dfb657ffd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:52 +0000
Subject: [PATCH 50/60] fix: evaluate the Lawrence-Krammer-Bigelow
 representation exactly modulo a fixed-width integer

A prime given as a numpy integer made the reduced entries numpy integers too, which
overflowed in products of many matrices.
---
 peyl/jonesrep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index b7d66d7..0beb438 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -289,7 +289,7 @@ class LKBRep(RepBase):
         assert t.is_unit()
 
         self.n = n
-        self.p = p
+        self.p = operator.index(p)
         self.q = q
         self.t = t
 
-- 
2.43.0


From c13ad43e4104e299a82394eee710dca7a51b5363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:27 +0000
Subject: [PATCH 51/60] fix: large Chebyshev polynomials no longer exceed the
 recursion limit

---
 peyl/poly.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/peyl/poly.py b/peyl/poly.py
index b91a02a..8358858 100644
--- a/peyl/poly.py
+++ b/peyl/poly.py
@@ -193,6 +193,10 @@ class Poly:
         if n == 1:
             return Poly(0, 1)
 
+        # Fill in the cache from below, so that the recursion stays well within Python's limit.
+        for i in range(0, n - 1, 100):
+            Poly.chebyshevT(i)
+
         return Poly(0, 2) * Poly.chebyshevT(n - 1) - Poly.chebyshevT(n - 2)
 
     @staticmethod
-- 
2.43.0


From 5b7012f8f3a44b8cfcf164a89af181248f9243cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:20 +0000
Subject: [PATCH 52/60] fix: FramedMatrix accepts any displayable object as a
 column heading, as it does for rows

---
 peyl/show.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/show.py b/peyl/show.py
index 9a22b96..68ffaf4 100644
--- a/peyl/show.py
+++ b/peyl/show.py
@@ -68,7 +68,7 @@ class FramedMatrix:
             # First row, with an empty cell at the start.
             '<tr>',
             '<td></td>',
-            *['<td style="text-align: center">' + x._repr_html_() + '</td>' for x in self.cols],
+            *['<td style="text-align: center">' + html_repr(x) + '</td>' for x in self.cols],
             '</tr>',
             ''.join([
                 html
-- 
2.43.0


From 30cc826011860ff4465957826e214526284167ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:56 +0000
Subject: [PATCH 53/60] fix: the product of two polymats with no degrees at
 all, such as trimmed zeros, raised ValueError

---
 peyl/polymat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/peyl/polymat.py b/peyl/polymat.py
index d25f63c..ee6a45b 100644
--- a/peyl/polymat.py
+++ b/peyl/polymat.py
@@ -66,6 +66,7 @@ def mul(A: npt.NDArray, B: npt.NDArray, quotdeg: int = None):
     assert quotdeg is None or quotdeg >= 0, f"quotdeg={quotdeg} is illegal."
 
     P = D + E - 1 if quotdeg is None else quotdeg
+    P = max(P, 0)   # A and B may have no degrees at all.
     prefix = np.broadcast_shapes(alpha, beta)
 
     # This approach seems to be a bit faster than making a large shape of zeros of the right size
-- 
2.43.0


From f87e40bad7679b9e44cac4f075ead219a98883d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:56 +0000
Subject: [PATCH 54/60] fix: projlen and efflen of a polymat with no degrees at
 all, such as a trimmed zero, raised ValueError instead of being zero

---
 peyl/polymat.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/peyl/polymat.py b/peyl/polymat.py
index ee6a45b..c28bcdb 100644
--- a/peyl/polymat.py
+++ b/peyl/polymat.py
@@ -263,6 +263,9 @@ def rhogap(A: npt.NDArray):
 
 def efflen(A: npt.NDArray):
     """degmax - valmin, or zero if A == 0."""
+    if A.shape[-1] == 0:
+        return np.zeros(A.shape[:-3], dtype=int)
+
     return np.where(
         (A == 0).all(axis=(-3, -2, -1)),
         0,
@@ -275,6 +278,9 @@ def projlen(A: npt.NDArray) -> npt.NDArray:
     Name inspired since ignoring powers of v^d is a bit like projectivising.
     (α, I, J, D) -> (α)
     """
+    if A.shape[-1] == 0:
+        return np.zeros(A.shape[:-3], dtype=int)
+
     nonzeros = np.any(A, axis=(-3, -2))
     starts = np.argmax(nonzeros, axis=-1)
     ends = nonzeros.shape[-1] - np.argmax(nonzeros[..., ::-1], axis=-1)
-- 
2.43.0


From 81fd2436d3b0888a9f429f1b1c433127321dc911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:56 +0000
Subject: [PATCH 55/60] fix: to_matrix of a polymat with no rows raised
 IndexError

---
 peyl/polymat.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/peyl/polymat.py b/peyl/polymat.py
index c28bcdb..0c2a066 100644
--- a/peyl/polymat.py
+++ b/peyl/polymat.py
@@ -150,10 +150,11 @@ def to_matrix(A):
     """Return a polynomial matrix A as a regular matrix over the ring of Laurent polynomials."""
     assert len(A.shape) == 3
     I, J, _ = A.shape
-    return Matrix.from_rows([
-        [LPoly(0, A[i, j, :].tolist()) for j in range(J)]
+    return Matrix(I, J, tuple(
+        LPoly(0, A[i, j, :].tolist())
         for i in range(I)
-    ])
+        for j in range(J)
+    ))
 
 def from_matrix(mat: Matrix, proj: bool = False, dtype: npt.DTypeLike = np.int64):
     """
-- 
2.43.0


From 952713e2d6ce4e1af53ecf75b0f18d42f9cb855f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:56 +0000
Subject: [PATCH 56/60] fix: projectivise of an empty batch of polymats raised
 ValueError

---
 peyl/polymat.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/peyl/polymat.py b/peyl/polymat.py
index 0c2a066..6aceea2 100644
--- a/peyl/polymat.py
+++ b/peyl/polymat.py
@@ -199,6 +199,10 @@ def projectivise(A: npt.NDArray):
     assert len(A.shape) >= 3
     assert np.all(np.any(A, axis=(-3, -2, -1)))
 
+    # There is nothing to shift in an empty batch.
+    if A.size == 0:
+        return A
+
     # The input may already be projectivised, which we can check by the existence of a nonzero entry in
     # every first term, and a nonzero entry in some last term.
     if np.all(np.any(A[..., 0], axis=(-2, -1))) and np.any(A[..., -1]):
-- 
2.43.0


From 46995aa0acad5e80fff3e903c62067e53ad846f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:56 +0000
Subject: [PATCH 57/60] fix: a bucket holding both kinds of normal form could
 be neither extended nor validated

---
 peyl/bucketing.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/peyl/bucketing.py b/peyl/bucketing.py
index 936d4c1..b6d901c 100644
--- a/peyl/bucketing.py
+++ b/peyl/bucketing.py
@@ -130,6 +130,13 @@ class Bucket:
         """Return two parallel lists of braids and their images."""
         return self.braids, self.images[:self.size()]
 
+    def braids_images_by_kind(self) -> List[Tuple[List[NFBase], npt.NDArray]]:
+        """Like braids_images(), but separately for each kind of normal form in the bucket."""
+        braids, images = self.braids_images()
+        kinds = dict.fromkeys(type(braid) for braid in braids)
+        indices = [[i for i, braid in enumerate(braids) if type(braid) is kind] for kind in kinds]
+        return [([braids[i] for i in which], images[which]) for which in indices]
+
     def show_reservoir(self, weight: float):
         """Indicate to the reservoir that it has seen another element of the given weight."""
         self.reservoir_count += 1
@@ -268,8 +275,8 @@ class Tracker:
 
     def valiate_buckets(self):
         """Ensure that the braids in each bucket evaluate to the matrices stored there."""
-        for tag, bucket in self.buckets.items():
-            braids, images = bucket.braids_images()
+        chunks = ((tag, *chunk) for tag, bucket in self.buckets.items() for chunk in bucket.braids_images_by_kind())
+        for tag, braids, images in chunks:
             actual = self.rep.polymat_evaluate_braids_of_same_length(braids)
             if not np.all(images == actual):
                 print(f"A braid image is wrong in bucket {tag}")
@@ -365,11 +372,14 @@ class Tracker:
         last_factors = np.array([braid.factors[-1] if braid.factors else -1 for braid in bucket_braids])
         sorted_indices = np.argsort(last_factors)
 
+        # A bucket may hold both kinds of normal form, and the same factor means something else in each.
+        sorted_indices = sorted(sorted_indices, key=lambda i: type(bucket_braids[i]).__name__)
+
         sorted_braids = [bucket_braids[i] for i in sorted_indices]
         sorted_images = bucket_images[sorted_indices]
 
         # Now we can iterate through each group ending in the same factor.
-        for last, indices in itertools.groupby(range(len(sorted_braids)), key=lambda i: sorted_braids[i].factors[-1:]):
+        for (_, last), indices in itertools.groupby(range(len(sorted_braids)), key=lambda i: (type(sorted_braids[i]), sorted_braids[i].factors[-1:])):
             index_list = list(indices)
             chunk = slice(min(index_list), max(index_list)+1)
             braids = sorted_braids[chunk]
-- 
2.43.0


From ec63c54244ad117120f6986a75387b072692cfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:15 +0000
Subject: [PATCH 58/60] fix: nf_descendants of a bucket of braids on one or two
 strands raised IndexError

---
 peyl/bucketing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/peyl/bucketing.py b/peyl/bucketing.py
index b6d901c..7050c13 100644
--- a/peyl/bucketing.py
+++ b/peyl/bucketing.py
@@ -389,6 +389,9 @@ class Tracker:
             last_factor = (type(braids[0]), last)
             if (length, last_factor) not in self.suffix_cache:
                 suffixes = list(braids[0].nf_suffixes(length))
+                if len(suffixes) == 0:
+                    continue    # There are no normal form factors on one or two strands.
+
                 rights = self.rep.polymat_evaluate_braids_of_same_length(suffixes)
                 self.suffix_cache[length, last_factor] = (suffixes, rights)
             else:
-- 
2.43.0


From c809a07b133b6d9ad256febcbc93bfa00b902c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:23 +0000
Subject: [PATCH 59/60] fix: the exhaustive search raised AssertionError on one
 strand, where there are no generators

---
 peyl/braidsearch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index a7f3e1f..65071da 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -99,6 +99,10 @@ class JonesSummand:
         The first NDArray are the images of the Artin generators in the representation, while the second NDArray
         are the images of their inverses.
         """
+        if self.n == 1:
+            # The trivial group has no generators.
+            return np.zeros((0, 1, 1, 1), dtype=self.dtype()), np.zeros((0, 1, 1, 1), dtype=self.dtype())
+
         gens, invs = cell_matrices(self.n, self.r)
         matgens = polymat.projectivise(polymat.pack([polymat.from_matrix(x, dtype=self.dtype()) for x in gens]))
         matinvs = polymat.projectivise(polymat.pack([polymat.from_matrix(x, dtype=self.dtype(), proj=True) for x in invs]))
-- 
2.43.0


From 1ad99c41acc963cdd8da3d8b9119178ba4533904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:33:53 +0000
Subject: [PATCH 60/60] fix: words on one strand could not be evaluated as
 polymats, there being no generators to pack

---
 peyl/jonesrep.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index 0beb438..d6a6aa0 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -118,6 +118,11 @@ class RepBase:
         are the images of their inverses.
         """
         gens, invs = self.artin_gens_invs()
+        if len(gens) == 0:
+            # There are no generators on one strand.
+            none = np.zeros((0, self.dimension(), self.dimension(), 1), dtype=self.polymat_dtype())
+            return none, none
+
         matgens = polymat.pack([polymat.from_matrix(x, proj=True, dtype=self.polymat_dtype()) for x in gens])
         matinvs = polymat.pack([polymat.from_matrix(x, proj=True, dtype=self.polymat_dtype()) for x in invs])
         if self.p != 0:
-- 
2.43.0

