From 49ce831a7b1f4fa2700c520fd4fa017125151cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:32 +0000
Subject: [PATCH 01/14] fix: rotosolve rotates by exp(-i t P/2) for Pauli words
 of every length

---
 oranssi/opt_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index a552551..32f4d51 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -1289,17 +1289,17 @@ def rotosolve(pauli, observables, obs_qnode, circuit_unitary, nqubits):
             unitary=circuit_unitary,
             observable=o)
     H_p = 0.
-    U_riemann_approx = ssla.expm(-1j * np.pi / 2 * pauli / 2 ** nqubits)
+    U_riemann_approx = ssla.expm(-1j * np.pi / 2 * pauli / 2)
     for o in observables:
         H_p += obs_qnode(
             unitary=U_riemann_approx @ circuit_unitary,
             observable=o)
     H_m = 0.
-    U_riemann_approx = ssla.expm(1j * np.pi / 2 * pauli / 2 ** nqubits)
+    U_riemann_approx = ssla.expm(1j * np.pi / 2 * pauli / 2)
     for o in observables:
         H_m += obs_qnode(
             unitary=U_riemann_approx @ circuit_unitary,
             observable=o)
     eta = -np.pi / 2 - np.arctan2(2 * H_0 - H_p - H_m, H_p - H_m)
-    U_riemann_approx = ssla.expm(-1j * eta * pauli / 2 ** nqubits)
+    U_riemann_approx = ssla.expm(-1j * eta * pauli / 2)
     return U_riemann_approx @ circuit_unitary, eta
-- 
2.43.0


From 7ae86b4224aa6cb0655e501c17a6fbd51a6cf746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:32 +0000
Subject: [PATCH 02/14] fix: project onto the unitary manifold when the update
 is not unitary

---
 oranssi/opt_tools.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 32f4d51..42d9334 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -184,7 +184,7 @@ class LocalLieAlgebraLayer(LieLayer):
                         omega = phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi
                         self.op = omega * pauli
                         U_riemann_approx = ssla.expm(- self.eta / 2 ** self.nqubits * self.op)
-                        if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+                        if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):
                             U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
                         circuit_unitary = U_riemann_approx @ circuit_unitary
                         self.op.fill(0)
@@ -194,7 +194,7 @@ class LocalLieAlgebraLayer(LieLayer):
                     # omegas = np.array(omegas) /( self.eta/ 2 ** self.nqubits +1e-9)
                     self.op = sum(omegas[i] * full_paulis[i] for i in range(len(full_paulis)))
                     U_riemann_approx = ssla.expm(-self.eta / 2 ** self.nqubits * self.op)
-                    if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+                    if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):
                         U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
                     circuit_unitary = U_riemann_approx @ circuit_unitary
 
@@ -276,7 +276,7 @@ class CustomDirectionLieAlgebraLayer(LieLayer):
                     omega = phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi
                     self.op = omega * pauli
                     U_riemann_approx = ssla.expm(- self.eta / 2 ** self.nqubits * self.op)
-                    if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+                    if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):
                         U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
                     circuit_unitary = U_riemann_approx @ circuit_unitary
                     self.op.fill(0)
@@ -288,7 +288,7 @@ class CustomDirectionLieAlgebraLayer(LieLayer):
                 self.op = sum(
                     omegas[i] * pauli for i, pauli in enumerate(self.full_paulis.values()))
                 U_riemann_approx = ssla.expm(-self.eta / 2 ** self.nqubits * self.op)
-                if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+                if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):
                     U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
                 circuit_unitary = U_riemann_approx @ circuit_unitary
 
@@ -358,7 +358,7 @@ class StochasticLieAlgebraLayer(LieLayer):
             pauli = self.lastate.full_paulis[(self.current_direction, *self.current_qubits)]
             omega = phi.conj().T @ (pauli @ obs - obs @ pauli) @ phi
             U_riemann_approx = ssla.expm(- self.eta / 2 ** self.nqubits * omega * pauli)
-            if (self.unitary_error_check) and (self._is_unitary(U_riemann_approx)):
+            if (self.unitary_error_check) and (not self._is_unitary(U_riemann_approx)):
                 U_riemann_approx = self._project_onto_unitary(U_riemann_approx)
             circuit_unitary = U_riemann_approx @ circuit_unitary
 
-- 
2.43.0


From 2472af8144b4825084b2a34c3088878d4f56e751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:32 +0000
Subject: [PATCH 03/14] fix: get_lie_algebra_directions works for layers that
 store full observables

---
 oranssi/opt_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 42d9334..9acf1f6 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -34,6 +34,7 @@ class LieLayer(object):
         self.nqubits = nqubits
         self.observables = [get_full_operator(obs.matrix, obs.wires, self.nqubits) for obs in
                             observables]
+        self.local_observables = observables
 
     def __call__(self, circuit_unitary, *args, **kwargs):
         raise NotImplementedError
@@ -96,7 +97,7 @@ class LieLayer(object):
         Returns:
             Dictionary containing the directions and corresponding SU(2^N) directions.
         """
-        return get_all_su_n_directions(circuit_unitary, self.observables, self.device)
+        return get_all_su_n_directions(circuit_unitary, self.local_observables, self.device)
 
 
 class LocalLieAlgebraLayer(LieLayer):
-- 
2.43.0


From 8d1477385aa0f31a9319a0676b269ea4061459db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:32 +0000
Subject: [PATCH 04/14] fix: CustomDirectionLieAlgebraLayer accepts
 directions=None

---
 oranssi/opt_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 9acf1f6..64afebe 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -239,14 +239,14 @@ class CustomDirectionLieAlgebraLayer(LieLayer):
         self.lastate = AlgebraSU4(self.nqubits, add_su2=True)
         self.lastate.get_all_directions_and_qubits()
         self.directions =list(self.lastate.full_paulis.keys())
-        self.paulis = self.lastate.full_paulis
+        self.paulis = list(self.lastate.full_paulis.values())
         if directions is not None:
             assert all(d in self.lastate.directions for d in directions), \
                 f'Supplied Lie algebra directions are invalid, ' \
                 f'expected {self.lastate.directions}, received {directions}'
             new_directions = []
             new_paulis = []
-            for d, pauli in self.paulis.items():
+            for d, pauli in self.lastate.full_paulis.items():
                 print(d)
                 if d[0] in directions:
                     new_directions.append(d)
-- 
2.43.0


From 4c7cfa6ed70143defe251a6de426cb073215ffad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:32 +0000
Subject: [PATCH 05/14] fix: AdaptVQELayer does not append to the caller's
 parameter list

---
 oranssi/opt_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/opt_tools.py b/oranssi/opt_tools.py
index 64afebe..339dc3d 100644
--- a/oranssi/opt_tools.py
+++ b/oranssi/opt_tools.py
@@ -573,7 +573,7 @@ class AdaptVQELayer(LieLayer):
                             qml.PauliRot(params[j][idx], layer[0], wires=(i, i + 1))
                         qml.PauliRot(params[j][-1], layer[0], wires=(0, self.nqubits - 1))
 
-        params_ext.append([0.1 for _ in range(self.nqubits)])
+        params_ext = list(params_ext) + [[0.1 for _ in range(self.nqubits)]]
 
         costs, params_ext = ps_optimizer(circuit_vqe, params_ext, self.observables, self.dev,
                                          return_params=True, eta=0.01, tol=1e-5)
-- 
2.43.0


From 04c1b22616374d700a17218c05b555c6944d7c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:32 +0000
Subject: [PATCH 06/14] fix: PauliSum arithmetic leaves its operands unchanged

---
 oranssi/pauli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oranssi/pauli.py b/oranssi/pauli.py
index e5d6ac7..5cd11a7 100644
--- a/oranssi/pauli.py
+++ b/oranssi/pauli.py
@@ -259,7 +259,8 @@ class PauliSum(object):
             'All PauliMonomials must have the same length, found multiple different length: ' \
             f'{[len(ps) for ps in list_of_pauli_monomials]} ' \
             f'where the tuple indicates (location, number of occurences)'
-        self.pauli_sum = list_of_pauli_monomials
+        # copy the monomials, since simplify and scalar_mul change coefficients in place
+        self.pauli_sum = [copy.copy(ps) for ps in list_of_pauli_monomials]
         self.simplify()
 
     def __getitem__(self, item):
@@ -303,7 +304,7 @@ class PauliSum(object):
 
     def __sub__(self, other):
         # enable multiplication of monomials
-        other_pauli_sum = copy.copy(other)
+        other_pauli_sum = PauliSum(other.pauli_sum)
         other_pauli_sum.scalar_mul(-1)
         new_pauli_sum = copy.copy(self.pauli_sum) + other_pauli_sum.pauli_sum
         return PauliSum(new_pauli_sum)
-- 
2.43.0


From e2e59780432c659eefa2b9631a1058be194d4c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:32 +0000
Subject: [PATCH 07/14] fix: get_commuting_set returns non-overlapping edges
 for every graph

---
 oranssi/circuit_tools.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/oranssi/circuit_tools.py b/oranssi/circuit_tools.py
index ee5dc75..89f8791 100644
--- a/oranssi/circuit_tools.py
+++ b/oranssi/circuit_tools.py
@@ -186,6 +186,12 @@ def get_commuting_set(edge_list):
         return edge_list
     else:
         g = nx.from_edgelist(edge_list)
-        applyHeuristic(g, 2, 50, 50)
-        edge_coloring = [e for e in g.edges() if g[e[0]][e[1]]['color'] == 0]
+        applyHeuristic(g, max(2, max(d for _, d in g.degree())), 50, 50)
+        edge_coloring = []
+        used_nodes = set()
+        for e in g.edges():
+            # the heuristic can fail, so skip edges that touch one that was already selected
+            if g[e[0]][e[1]]['color'] == 0 and not used_nodes & set(e):
+                edge_coloring.append(e)
+                used_nodes |= set(e)
         return edge_coloring
-- 
2.43.0


From 24441c76b7023304df98c55c38268c4040e677a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:32 +0000
Subject: [PATCH 08/14] fix: plot_su16_directions_separate calls
 get_all_su_n_directions correctly

---
 oranssi/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/plot_utils.py b/oranssi/plot_utils.py
index 0e7c5e6..8fecf8a 100644
--- a/oranssi/plot_utils.py
+++ b/oranssi/plot_utils.py
@@ -96,7 +96,7 @@ def change_label_fontsize(ax: plt.Axes, newsize: int):
 def plot_su16_directions_separate(nqubits:int, unitaries, observables, device):
     omegas = []
     for uni in unitaries:
-        omegas.append(get_all_su_n_directions(uni, observables, nqubits, device))
+        omegas.append(get_all_su_n_directions(uni, observables, device))
 
     fig, axs = plt.subplots(2, 2)
     fig.set_size_inches(16, 16)
-- 
2.43.0


From 969e683f2ab670e0a9ac6acf0e4ad196a9fe6ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:32 +0000
Subject: [PATCH 09/14] fix: state_to_spherical clips rounding errors before
 arccos

---
 oranssi/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/plot_utils.py b/oranssi/plot_utils.py
index 8fecf8a..1e0c7d4 100644
--- a/oranssi/plot_utils.py
+++ b/oranssi/plot_utils.py
@@ -62,7 +62,7 @@ def state_to_spherical(rho):
     assert np.isclose(np.trace(rho), 1), '`rho` is not trace 1'
     paulis = get_su_2_operators()
     coeffs = [np.trace(rho @ paulis[i]).real for i in range(3)]
-    theta = np.arccos(coeffs[2])
+    theta = np.arccos(np.clip(coeffs[2], -1., 1.))
     phi = np.arctan2(coeffs[1], coeffs[0])
     phi %= (2 * np.pi)
     theta %= (2 * np.pi)
-- 
2.43.0


From 602a0f7bb166fc0047d7743846d5604154f2392e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:35 +0000
Subject: [PATCH 10/14] fix: PauliMonomial products use the coefficients of the
 monomials

---
 oranssi/pauli.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/oranssi/pauli.py b/oranssi/pauli.py
index 5cd11a7..2e0132d 100644
--- a/oranssi/pauli.py
+++ b/oranssi/pauli.py
@@ -133,16 +133,20 @@ class PauliMonomial(object):
         sites_other_unique = set_other_locations - sites_in_common
         # Take the product of the common paulis and add them
         for i in sites_in_common:
-            new_monomial.append(self[self.locations.index(i)] * other[other.locations.index(i)])
+            p, q = self[self.locations.index(i)], other[other.locations.index(i)]
+            new_monomial.append(Pauli(p.alpha, p.gamma) * Pauli(q.alpha, q.gamma))
         # Create new Pauli objects for the unique locations so we don't get reference issues
         for j in sites_self_unique:
             p = self[self.locations.index(j)]
-            new_monomial.append(Pauli(p.alpha, p.gamma, p.coeff))
+            new_monomial.append(Pauli(p.alpha, p.gamma))
         for k in sites_other_unique:
             p = other[other.locations.index(k)]
-            new_monomial.append(Pauli(p.alpha, p.gamma, p.coeff))
+            new_monomial.append(Pauli(p.alpha, p.gamma))
         # creating a new PauliMonomial will automatically sort based on site
-        return PauliMonomial(new_monomial)
+        product = PauliMonomial(new_monomial)
+        # the coefficient of a monomial can differ from the product of those of its paulis (commutator, scalar_mul)
+        product.coeff = product.coeff * self.coeff * other.coeff
+        return product
 
     def __eq__(self, other):
         # monomials are equal of all paulis are equal. If they are not of equal length they cannot be compared and
-- 
2.43.0


From d5fc9782325df8be8c8eba81ae85e3aaec7c53cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:35 +0000
Subject: [PATCH 11/14] fix: PauliMonomial.conj conjugates the coefficient of
 the monomial

---
 oranssi/pauli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oranssi/pauli.py b/oranssi/pauli.py
index 2e0132d..e55ec6d 100644
--- a/oranssi/pauli.py
+++ b/oranssi/pauli.py
@@ -222,6 +222,7 @@ class PauliMonomial(object):
         # conjugate all paulis in the monomial
         for p in self.monomial:
             p.conj()
+        self.coeff = np.conj(self.coeff)
         return self
 
     def commutes_with(self, operator):
-- 
2.43.0


From a39bf6ba2c1c3e07e75e192ac87503ff46272f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:38 +0000
Subject: [PATCH 12/14] fix: parameter_shift_optimizer validates return_params

---
 oranssi/optimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oranssi/optimizers.py b/oranssi/optimizers.py
index f5ab25b..812652c 100644
--- a/oranssi/optimizers.py
+++ b/oranssi/optimizers.py
@@ -49,7 +49,7 @@ def parameter_shift_optimizer(circuit, params: List, observables: List, device:
     assert (isinstance(return_state, bool)), \
         f'`return_state` must be a boolean, received {return_state}'
     return_params = kwargs.get('return_params', False)
-    assert (isinstance(return_state, bool)), \
+    assert (isinstance(return_params, bool)), \
         f'`return_params` must be a boolean, received {return_params}'
     if return_state:
         def circuit_state(params):
-- 
2.43.0


From 3344234bc3c559c1a12c76825892ce874d486ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:07 +0000
Subject: [PATCH 13/14] fix: get_commuting_set returns the edges as they were
 given

---
 oranssi/circuit_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oranssi/circuit_tools.py b/oranssi/circuit_tools.py
index 89f8791..877388f 100644
--- a/oranssi/circuit_tools.py
+++ b/oranssi/circuit_tools.py
@@ -189,7 +189,8 @@ def get_commuting_set(edge_list):
         applyHeuristic(g, max(2, max(d for _, d in g.degree())), 50, 50)
         edge_coloring = []
         used_nodes = set()
-        for e in g.edges():
+        # go through the given edges, since networkx can return (v, u) for an edge (u, v)
+        for e in edge_list:
             # the heuristic can fail, so skip edges that touch one that was already selected
             if g[e[0]][e[1]]['color'] == 0 and not used_nodes & set(e):
                 edge_coloring.append(e)
-- 
2.43.0


From 28e1b99899dd06f1541b3300be610170c4a5ee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:02 +0000
Subject: [PATCH 14/14] fix: PauliSum combines like terms whose combined
 coefficient turned real

---
 oranssi/pauli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oranssi/pauli.py b/oranssi/pauli.py
index e55ec6d..bebc4ad 100644
--- a/oranssi/pauli.py
+++ b/oranssi/pauli.py
@@ -291,6 +291,8 @@ class PauliSum(object):
                 # combine all coefficients into the first occurence
                 self.pauli_sum[remove_idx[0]].coeff = coeff
         self.pauli_sum = [ps for ps in self.pauli_sum if ~np.isclose(ps.coeff,0.0)]
+        # a combined coefficient can turn real, which makes its term a duplicate of another real one
+        self.simplify()
 
     def __len__(self):
         return len(self.pauli_sum)
-- 
2.43.0

