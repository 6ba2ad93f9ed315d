From 1784f09277eb5f5d9fe50fdedefa18c0b5cb936b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:48 +0000
Subject: [PATCH 01/25] fix: give every tensor network its own site tensors

The site tensors were kept in a dictionary on the class, so that all networks
of a process shared one state: building or copying a second network replaced
the tensors of the first.
---
 acetn/ipeps/tensor_network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acetn/ipeps/tensor_network.py b/acetn/ipeps/tensor_network.py
index 26d2c45..75ab45e 100644
--- a/acetn/ipeps/tensor_network.py
+++ b/acetn/ipeps/tensor_network.py
@@ -9,7 +9,7 @@ class TensorNetwork:
     This class handles the construction, initialization, and manipulation of a tensor network.
     It supports operations such as saving, loading, and setting up tensor networks, as well as managing the tensors.
     """
-    _tensor_network = {}
+    _tensor_network = None
     def __init__(self, tensor_network, config, dtype, device):
         """
         Initializes the TensorNetwork object.
@@ -20,6 +20,7 @@ class TensorNetwork:
             dtype (torch.dtype): The data type for the tensors (e.g., torch.float32).
             device (torch.device): The device on which the tensors will be allocated (e.g., 'cpu' or 'cuda').
         """
+        self._tensor_network = {}
         self.tn_config = config
         self.nx = config.nx
         self.ny = config.ny
-- 
2.43.0


From 5731f827fdbe6fa4310b7d5139f08c33caede143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:48 +0000
Subject: [PATCH 02/25] fix: saving a network leaves it as it was

save() loaded the file it had just written back into the network, which also
marked the site states as initialised and so changed the state the next
evolution starts from.
---
 acetn/ipeps/tensor_network.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/acetn/ipeps/tensor_network.py b/acetn/ipeps/tensor_network.py
index 75ab45e..18ab0aa 100644
--- a/acetn/ipeps/tensor_network.py
+++ b/acetn/ipeps/tensor_network.py
@@ -107,7 +107,6 @@ class TensorNetwork:
             "tensors": tn_cpu._tensor_network,
         }
         torch.save(state_dict, filename)
-        self.load(filename)
 
     def load(self, filename):
         """
-- 
2.43.0


From cb627b84292d387275f175eae799acf37403a907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:48 +0000
Subject: [PATCH 03/25] fix: evolve a network from the state it was given

The first evolution of a network constructed from another network replaced its
tensors by the initial state of the model.
---
 acetn/ipeps/ipeps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index 467f571..d0de9b5 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -38,7 +38,7 @@ class Ipeps(TensorNetwork):
         self.setup_distributed()
         log_initial_message(self.device, config)
         super().__init__(ipeps, self.config.TN, self.dtype, self.device)
-        self.site_states_initialized = False
+        self.site_states_initialized = ipeps is not None
 
     def __del__(self):
         """
-- 
2.43.0


From 2a72a50d4ddfe951fdcb4f3424917260b09572d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:48 +0000
Subject: [PATCH 04/25] fix: give every set of gates its own gates

The gates were kept in a dictionary on the class: creating the gates of a second
time step or model replaced those of the first.
---
 acetn/evolution/gate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acetn/evolution/gate.py b/acetn/evolution/gate.py
index 99bae1f..b86c5dd 100644
--- a/acetn/evolution/gate.py
+++ b/acetn/evolution/gate.py
@@ -6,7 +6,7 @@ class Gate:
     A class representing quantum gates for one-site and two-site Hamiltonians, 
     used in time evolution algorithms.
     """
-    _gate = {}
+    _gate = None
     def __init__(self, model, dtau, bond_list=None, site_list=None):
         """
         Initializes the Gate object, creating gates for the given model.
@@ -22,6 +22,7 @@ class Gate:
         site_list : list, optional
             A list of sites for which one-site gates will be created (default is None).
         """
+        self._gate = {}
         self.dtype = model.dtype
         self.device = model.device
         self.wrap_one_site = True
-- 
2.43.0


From 6781efbc0dfa56aeeff0275b11d18ea0659dd985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:48 +0000
Subject: [PATCH 05/25] fix: use the transpose in the full-system randomised
 projector

As the comment above it says, the first projector is the transpose of Q2 @ Q1
applied to conj(U); the adjoint is something else for complex tensors.
---
 acetn/renormalization/projectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/renormalization/projectors.py b/acetn/renormalization/projectors.py
index 71c45e1..28bd3c2 100644
--- a/acetn/renormalization/projectors.py
+++ b/acetn/renormalization/projectors.py
@@ -207,7 +207,7 @@ class ProjectorCalculator:
         V = V[:, :cD_new] * (1. / sqrt(s[:cD_new]))
 
         # proj1 = R1.T @ conj(U) = (Q2 @ Q1).T @ conj(U) = Q1.T @ (Q2.T @ conj(U))
-        proj1 = Q1.mH @ (Q2.mH @ conj(U))
+        proj1 = Q1.mT @ (Q2.mT @ conj(U))
         proj1 = proj1.view(*q1D[3:], cD_new)
 
         # proj2 = R2 @ V = (Q4 @ Q3) @ V = Q4 @ (Q3 @ V)
-- 
2.43.0


From 224e2e5472aa38ef551aa04b9d12e104e048e799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 06/25] fix: keep the one-site term of every site of a bond in
 its gate

The one-site terms of a bond were dropped when only one of its two sites has
one, and were added in place to the matrix the model returned, so that a model
which keeps its matrices accumulated them from one set of gates to the next.
---
 acetn/evolution/gate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/acetn/evolution/gate.py b/acetn/evolution/gate.py
index b86c5dd..2edb5f1 100644
--- a/acetn/evolution/gate.py
+++ b/acetn/evolution/gate.py
@@ -101,10 +101,10 @@ class Gate:
                 id_mat = torch.eye(pD, dtype=self.dtype, device=self.device)
                 site_ham_1 = model.one_site_hamiltonian(bond.s1)
                 site_ham_2 = model.one_site_hamiltonian(bond.s2)
-                if site_ham_1 is not None and site_ham_2 is not None:
-                    site_ham_1 = torch.kron(site_ham_1.mat, id_mat)
-                    site_ham_2 = torch.kron(id_mat, site_ham_2.mat)
-                    bond_ham += 0.25*(site_ham_1 + site_ham_2)
+                if site_ham_1 is not None:
+                    bond_ham = bond_ham + 0.25*torch.kron(site_ham_1.mat, id_mat)
+                if site_ham_2 is not None:
+                    bond_ham = bond_ham + 0.25*torch.kron(id_mat, site_ham_2.mat)
             self[bond] = self.calculate_gate(bond_ham, dtau).reshape(pD,pD,pD,pD)
 
     def calculate_gate(self, ham, dtau):
-- 
2.43.0


From 341324815ec65b24baadeca304e8c59e8de02e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 07/25] fix: accept Hamiltonian terms given as tensors in gates

Model documents that Hamiltonian terms are tensors, and measurements accept
both tensors and Pauli matrices, but gates failed on tensors.
---
 acetn/evolution/gate.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/acetn/evolution/gate.py b/acetn/evolution/gate.py
index 2edb5f1..6b69563 100644
--- a/acetn/evolution/gate.py
+++ b/acetn/evolution/gate.py
@@ -78,7 +78,7 @@ class Gate:
             site_ham = model.one_site_hamiltonian(site)
             if site_ham is not None:
                 scale = 1. if self.wrap_one_site else 0.25
-                self[site] = self.calculate_gate(site_ham.mat, scale*dtau)
+                self[site] = self.calculate_gate(self.get_matrix(site_ham), scale*dtau)
 
     def build_two_site_gates(self, model, dtau, bond_list):
         """
@@ -96,17 +96,24 @@ class Gate:
         """
         for bond in bond_list:
             pD = model.dim
-            bond_ham = model.two_site_hamiltonian(bond).mat
+            bond_ham = self.get_matrix(model.two_site_hamiltonian(bond))
             if self.wrap_one_site:
                 id_mat = torch.eye(pD, dtype=self.dtype, device=self.device)
                 site_ham_1 = model.one_site_hamiltonian(bond.s1)
                 site_ham_2 = model.one_site_hamiltonian(bond.s2)
                 if site_ham_1 is not None:
-                    bond_ham = bond_ham + 0.25*torch.kron(site_ham_1.mat, id_mat)
+                    bond_ham = bond_ham + 0.25*torch.kron(self.get_matrix(site_ham_1), id_mat)
                 if site_ham_2 is not None:
-                    bond_ham = bond_ham + 0.25*torch.kron(id_mat, site_ham_2.mat)
+                    bond_ham = bond_ham + 0.25*torch.kron(id_mat, self.get_matrix(site_ham_2))
             self[bond] = self.calculate_gate(bond_ham, dtau).reshape(pD,pD,pD,pD)
 
+    @staticmethod
+    def get_matrix(ham):
+        """
+        Returns the matrix of a Hamiltonian term given as a tensor or as an object holding it as `mat`.
+        """
+        return ham.mat if hasattr(ham, 'mat') else ham
+
     def calculate_gate(self, ham, dtau):
         """
         Calculates the gate from the Hamiltonian using the matrix exponential and time step.
-- 
2.43.0


From 804d97867123bd255d77c472d7c149180b34e04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 08/25] fix: count the Y factors of a product of sums per term

The key of a sum of real Pauli products joined the keys of its terms, so that
the sign of a following product counted the Y factors of all terms together:
(Y*I + I*Y)*Y had the wrong sign. The key of a sum is now that of its first
term, whose number of Y factors has the parity of every term.
---
 acetn/model/pauli_matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acetn/model/pauli_matrix.py b/acetn/model/pauli_matrix.py
index 5083e01..cffbfe9 100644
--- a/acetn/model/pauli_matrix.py
+++ b/acetn/model/pauli_matrix.py
@@ -116,7 +116,7 @@ class PauliMatrix:
             PauliMatrix: A new `PauliMatrix` object containing the result of the addition.
         """
         if isinstance(other, (PauliMatrix)):
-            return PauliMatrix(self.key + other.key, self.dtype, self.device, mat=(self.mat + other.mat))
+            return PauliMatrix(self.key, self.dtype, self.device, mat=(self.mat + other.mat))
 
     def __sub__(self, other):
         """
@@ -131,7 +131,7 @@ class PauliMatrix:
             PauliMatrix: A new `PauliMatrix` object containing the result of the subtraction.
         """
         if isinstance(other, (PauliMatrix)):
-            return PauliMatrix(self.key + other.key, self.dtype, self.device, mat=(self.mat - other.mat))
+            return PauliMatrix(self.key, self.dtype, self.device, mat=(self.mat - other.mat))
 
     def __neg__(self):
         """
-- 
2.43.0


From cc316535c51489040341370afed99bb297b6dfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 09/25] fix: reject sums of a Pauli matrix and something else

They evaluated to None.
---
 acetn/model/pauli_matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/acetn/model/pauli_matrix.py b/acetn/model/pauli_matrix.py
index cffbfe9..c3d9259 100644
--- a/acetn/model/pauli_matrix.py
+++ b/acetn/model/pauli_matrix.py
@@ -117,6 +117,7 @@ class PauliMatrix:
         """
         if isinstance(other, (PauliMatrix)):
             return PauliMatrix(self.key, self.dtype, self.device, mat=(self.mat + other.mat))
+        return NotImplemented
 
     def __sub__(self, other):
         """
@@ -132,6 +133,7 @@ class PauliMatrix:
         """
         if isinstance(other, (PauliMatrix)):
             return PauliMatrix(self.key, self.dtype, self.device, mat=(self.mat - other.mat))
+        return NotImplemented
 
     def __neg__(self):
         """
-- 
2.43.0


From 6e237bc6ec7d53058553882fa6f08df315393167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 10/25] fix: exponentiate a bond Hamiltonian given with four
 legs as a matrix

Measurements accept it in this form; in gates it was exponentiated as a batch of
one-site matrices.
---
 acetn/evolution/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/evolution/gate.py b/acetn/evolution/gate.py
index 6b69563..3a24521 100644
--- a/acetn/evolution/gate.py
+++ b/acetn/evolution/gate.py
@@ -96,7 +96,7 @@ class Gate:
         """
         for bond in bond_list:
             pD = model.dim
-            bond_ham = self.get_matrix(model.two_site_hamiltonian(bond))
+            bond_ham = self.get_matrix(model.two_site_hamiltonian(bond)).reshape(pD**2,pD**2)
             if self.wrap_one_site:
                 id_mat = torch.eye(pD, dtype=self.dtype, device=self.device)
                 site_ham_1 = model.one_site_hamiltonian(bond.s1)
-- 
2.43.0


From bd0d39e1ae407eb821ff01329f70ff59de0de5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 11/25] fix: do not write to the configuration passed by the
 user

set_chi and set_model_params wrote into the dictionaries the network was
constructed from, and so also into every other network constructed from them.
---
 acetn/ipeps/ipeps.py        | 2 +-
 acetn/ipeps/ipeps_config.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index d0de9b5..56624c7 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -77,7 +77,7 @@ class Ipeps(TensorNetwork):
         name = "custom" if name is None else name.lower()
         model_factory.register(name, model_cls)
         self.config.model.name = name
-        self.config.model.params = params
+        self.config.model.params = dict(params)
 
     def set_model_params(self, **kwargs):
         """
diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index a456fb7..e28a2db 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -1,5 +1,6 @@
 import torch
 import os
+from copy import deepcopy
 from dataclasses import dataclass, field
 from typing import Dict, Union, Literal
 from tqdm import tqdm
@@ -57,14 +58,14 @@ class IpepsConfig:
     def __post_init__(self):
         self.set_dtype(self.dtype)
         self.set_device(self.device)
-        self.TN = TNConfig(**self.TN)
+        self.TN = TNConfig(**deepcopy(self.TN))
         self.ctmrg = CTMRGConfig(**self.ctmrg)
         self.evolution = EvolutionConfig(**self.evolution)
         self.validate_backend()
         self.model = ModelConfig(dtype=self.dtype,
                            device=self.device,
                            dim=self.TN.dims['phys'],
-                           **self.model)
+                           **deepcopy(self.model))
         # disable tqdm progress bar in SLURM environment
         self.disable_pbar_if_slurm()
 
-- 
2.43.0


From 7fbe8c6096573de83aed973a9ea18c31d35b30da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 12/25] fix: default the Heisenberg coupling to 1.0 as
 documented

---
 acetn/ipeps/ipeps_config.py      | 2 +-
 acetn/model/models/heisenberg.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index e28a2db..df1379a 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -43,7 +43,7 @@ class ModelConfig:
     device: torch.device
     dim: int
     name: str = None
-    params: Dict[str, int] = None
+    params: Dict[str, int] = field(default_factory=lambda: {})
 
 @dataclass
 class IpepsConfig:
diff --git a/acetn/model/models/heisenberg.py b/acetn/model/models/heisenberg.py
index 518dbe9..326ba56 100644
--- a/acetn/model/models/heisenberg.py
+++ b/acetn/model/models/heisenberg.py
@@ -21,6 +21,6 @@ class HeisenbergModel(Model):
 
     def two_site_hamiltonian(self, bond):
         r"""$H_{ij} = \vec{S}_i\cdot\vec{S}_j$"""
-        J = self.params.get('J')
+        J = self.params.get('J', 1.0)
         X,Y,Z,I = pauli_matrices(self.dtype, self.device)
         return 0.25*J*(X*X + Y*Y + Z*Z)
-- 
2.43.0


From e16304b557e8f1dd3c88630476d868a694c50a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:07 +0000
Subject: [PATCH 13/25] fix: reject unknown svd_type, backend and als_method
 settings

A misspelt svd_type selected the randomised SVD, a misspelt backend the torch
backend, and a misspelt als_method failed in the middle of the first update.
---
 acetn/ipeps/ipeps_config.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index df1379a..bd0bbf2 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -61,6 +61,7 @@ class IpepsConfig:
         self.TN = TNConfig(**deepcopy(self.TN))
         self.ctmrg = CTMRGConfig(**self.ctmrg)
         self.evolution = EvolutionConfig(**self.evolution)
+        self.validate_choices()
         self.validate_backend()
         self.model = ModelConfig(dtype=self.dtype,
                            device=self.device,
@@ -101,6 +102,15 @@ class IpepsConfig:
             tqdm.write("Using device='cpu'")
             self.device = torch.device("cpu")
 
+    def validate_choices(self):
+        """Reject names of methods that do not exist instead of using another method."""
+        if self.ctmrg.svd_type not in ("rsvd", "full-rank"):
+            raise ValueError(f"Invalid ctmrg svd_type: {self.ctmrg.svd_type} provided.")
+        if self.evolution.backend not in ("torch", "cutensor"):
+            raise ValueError(f"Invalid evolution backend: {self.evolution.backend} provided.")
+        if self.evolution.als_method not in ("cholesky", "pinv"):
+            raise ValueError(f"Invalid evolution als_method: {self.evolution.als_method} provided.")
+
     def validate_backend(self):
         """Validate evolution backend and fallback if necessary."""
         if self.evolution.backend == "cutensor" and not CUTENSOR_AVAILABLE:
-- 
2.43.0


From 5154b93f3ad9297619bd1d1cac9db5e322a71588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 14/25] fix: gather projectors of different sizes on any device

Moving the gathered shapes to the device numbered by the rank failed without
CUDA although the CPU is a supported device, and all_gather requires equal
sizes on all ranks, which truncated projectors need not have.
---
 acetn/utils/distributed.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/acetn/utils/distributed.py b/acetn/utils/distributed.py
index b099853..a40c1d0 100644
--- a/acetn/utils/distributed.py
+++ b/acetn/utils/distributed.py
@@ -101,8 +101,10 @@ def all_gather_tensor(tensor, rank, ws):
     # gather tensors
     tensor_all = []
     for i in range(ws):
-        tensor_buf_shape = list(tensor_all_shapes[i].to(rank))
+        tensor_buf_shape = tensor_all_shapes[i].tolist()
         tensor_buf = torch.empty(tensor_buf_shape, dtype=tensor.dtype, device=tensor.device)
         tensor_all.append(tensor_buf)
-    dist.all_gather(tensor_all, tensor)
-    return tensor_all
\ No newline at end of file
+    tensor_all[rank].copy_(tensor)
+    for i in range(ws):
+        dist.broadcast(tensor_all[i], src=i)
+    return tensor_all
-- 
2.43.0


From eea47081022a1f81724b5d4eab7c42f17289c8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 15/25] fix: share the projectors of a distributed move among
 all ranks

The work of a rank advanced by one row instead of by half of the ranks, which
repeated projectors and skipped others with more than three ranks; a rank without work had
nothing to gather; and gathered projectors were moved to the device numbered by
the rank, which fails on the CPU.
---
 acetn/renormalization/directional_mover.py | 44 ++++++++++------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/acetn/renormalization/directional_mover.py b/acetn/renormalization/directional_mover.py
index 807bfab..960c300 100644
--- a/acetn/renormalization/directional_mover.py
+++ b/acetn/renormalization/directional_mover.py
@@ -192,24 +192,22 @@ class DirectionalMover:
         rank, ws = ipeps.rank, ipeps.world_size
         proj1l, proj2l = {}, {}
         proj1r, proj2r = {}, {}
-        for y_shift in range(0, 2*ipeps.ny, ws):
+        for y_shift in range(0, ipeps.ny, ws//2):
+            # ranks without a projector of their own repeat the last one
+            yi = min(rank % (ws//2) + y_shift, ipeps.ny-1)
             if rank < ws//2:
-                yi = rank + y_shift//ws
-                if yi < ipeps.ny:
-                    proj1_i, proj2_i = self.calculate_left_projectors(ipeps, x1, yi)
-            elif rank >= ws//2:
-                yi = rank - ws//2 + y_shift//ws
-                if yi < ipeps.ny:
-                    proj1_i, proj2_i = self.calculate_right_projectors(ipeps, x2, yi)
+                proj1_i, proj2_i = self.calculate_left_projectors(ipeps, x1, yi)
+            else:
+                proj1_i, proj2_i = self.calculate_right_projectors(ipeps, x2, yi)
 
             proj1_all = all_gather_tensor(proj1_i, rank, ws)
             proj2_all = all_gather_tensor(proj2_i, rank, ws)
 
             for yi in range(ws//2):
-                proj1l[yi + y_shift//ws] = proj1_all[yi].to(rank)
-                proj2l[yi + y_shift//ws] = proj2_all[yi].to(rank)
-                proj1r[yi + y_shift//ws] = proj1_all[yi + ws//2].to(rank)
-                proj2r[yi + y_shift//ws] = proj2_all[yi + ws//2].to(rank)
+                proj1l[yi + y_shift] = proj1_all[yi]
+                proj2l[yi + y_shift] = proj2_all[yi]
+                proj1r[yi + y_shift] = proj1_all[yi + ws//2]
+                proj2r[yi + y_shift] = proj2_all[yi + ws//2]
 
         for yi in range(ipeps.ny):
             xj = (x1+1) % ipeps.nx
@@ -237,24 +235,22 @@ class DirectionalMover:
         rank, ws = ipeps.rank, ipeps.world_size
         proj1u, proj2u = {}, {}
         proj1d, proj2d = {}, {}
-        for x_shift in range(0, 2*ipeps.nx, ws):
+        for x_shift in range(0, ipeps.nx, ws//2):
+            # ranks without a projector of their own repeat the last one
+            xi = min(rank % (ws//2) + x_shift, ipeps.nx-1)
             if rank < ws//2:
-                xi = rank + x_shift//ws
-                if xi < ipeps.nx:
-                    proj1_i, proj2_i = self.calculate_up_projectors(ipeps, xi, y1)
-            elif rank >= ws//2:
-                xi = rank - ws//2 + x_shift//ws
-                if xi < ipeps.nx:
-                    proj1_i, proj2_i = self.calculate_down_projectors(ipeps, xi, y2)
+                proj1_i, proj2_i = self.calculate_up_projectors(ipeps, xi, y1)
+            else:
+                proj1_i, proj2_i = self.calculate_down_projectors(ipeps, xi, y2)
 
             proj1_all = all_gather_tensor(proj1_i, rank, ws)
             proj2_all = all_gather_tensor(proj2_i, rank, ws)
 
             for xi in range(ws//2):
-                proj1u[xi + x_shift//ws] = proj1_all[xi].to(rank)
-                proj2u[xi + x_shift//ws] = proj2_all[xi].to(rank)
-                proj1d[xi + x_shift//ws] = proj1_all[xi + ws//2].to(rank)
-                proj2d[xi + x_shift//ws] = proj2_all[xi + ws//2].to(rank)
+                proj1u[xi + x_shift] = proj1_all[xi]
+                proj2u[xi + x_shift] = proj2_all[xi]
+                proj1d[xi + x_shift] = proj1_all[xi + ws//2]
+                proj2d[xi + x_shift] = proj2_all[xi + ws//2]
 
         for xi in range(ipeps.nx):
             xj = (xi+1) % ipeps.nx
-- 
2.43.0


From 032eef4ff3764dfedc80025c812d3f2a604bef1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 16/25] fix: start all ranks from the same site tensors

Every rank drew its own noise, so that the ranks of a distributed calculation
renormalised different states until every site had been updated.
---
 acetn/ipeps/ipeps.py       | 15 +++++++++++++++
 acetn/utils/distributed.py | 16 ++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index 56624c7..47d446a 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -55,6 +55,21 @@ class Ipeps(TensorNetwork):
         self.rank, self.world_size, self.device, self.is_distributed \
             = setup_distributed(self.device)
 
+    def initialize_site_tensors(self, site_state_map):
+        """
+        Initialize the tensors of all sites, with the same noise on all ranks.
+
+        Args:
+            site_state_map (callable): Maps a site to its initial state.
+        """
+        super().initialize_site_tensors(site_state_map)
+        if self.is_distributed:
+            for site in self.site_list:
+                site_tensor = self[site]
+                site_tensor['A'] = broadcast_tensor(site_tensor['A'])
+                site_tensor['C'] = [broadcast_tensor(c) for c in site_tensor['C']]
+                site_tensor['E'] = [broadcast_tensor(e) for e in site_tensor['E']]
+
     def set_chi(self, chi):
         """
         Set the boundary bond dimension chi.
diff --git a/acetn/utils/distributed.py b/acetn/utils/distributed.py
index a40c1d0..7fe965f 100644
--- a/acetn/utils/distributed.py
+++ b/acetn/utils/distributed.py
@@ -108,3 +108,19 @@ def all_gather_tensor(tensor, rank, ws):
     for i in range(ws):
         dist.broadcast(tensor_all[i], src=i)
     return tensor_all
+
+
+def broadcast_tensor(tensor, src=0):
+    """
+    Returns the tensor held by the worker of rank src on all workers.
+
+    Args:
+        tensor (Tensor): A tensor of the same shape on all workers.
+        src (int): The rank of the worker to take the tensor from.
+
+    Returns:
+        Tensor: The tensor of the worker of rank src.
+    """
+    tensor = tensor.clone(memory_format=torch.contiguous_format)
+    dist.broadcast(tensor, src=src)
+    return tensor
-- 
2.43.0


From b4f17916e2c051a8549efacac0cee578aeaf026c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 17/25] fix: keep the process group until the last network is
 gone

Deleting one of several distributed networks destroyed the process group the
others still use, and a network whose configuration was rejected failed again
when it was deleted.
---
 acetn/ipeps/ipeps.py       |  1 +
 acetn/utils/distributed.py | 12 ++++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index 47d446a..cf26981 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -24,6 +24,7 @@ class Ipeps(TensorNetwork):
         rank (int): Process rank in distributed setting.
         world_size (int): Total number of processes in distributed setting.
     """
+    is_distributed = False
     def __init__(self, config, ipeps=None):
         """
         Initialize the iPEPS tensor network.
diff --git a/acetn/utils/distributed.py b/acetn/utils/distributed.py
index 7fe965f..6e4960a 100644
--- a/acetn/utils/distributed.py
+++ b/acetn/utils/distributed.py
@@ -5,6 +5,9 @@ import builtins
 from tqdm import tqdm
 from torch.distributed.elastic.multiprocessing.errors import record
 
+# number of objects using the process group
+_num_users = 0
+
 
 @record
 def setup_distributed(device):
@@ -14,6 +17,7 @@ def setup_distributed(device):
     Args:
         device (torch.device): The device to use (e.g. 'cpu' or 'cuda'). 
     """
+    global _num_users
     rank = 0
     world_size = 1
 
@@ -29,6 +33,7 @@ def setup_distributed(device):
             raise RuntimeError(
                 f"{world_size} devices requested but only {device_count} available")
         device = setup_process_group(rank, world_size, device)
+        _num_users += 1
 
     return rank, world_size, device, is_distributed
 
@@ -76,9 +81,12 @@ def setup_distributed_print(rank):
 
 def finalize_distributed():
     """
-    Finalizes the distributed environment and cleans up resources.
+    Finalizes the distributed environment and cleans up resources when its
+    last user is finished.
     """
-    if dist.is_initialized():
+    global _num_users
+    _num_users -= 1
+    if _num_users <= 0 and dist.is_initialized():
         dist.destroy_process_group()
 
 
-- 
2.43.0


From c785b86e77d7ce61f6f1118838668c281b4fccea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 18/25] fix: keep the progress bar settings in interactive
 SLURM jobs

They were overwritten by False.
---
 acetn/ipeps/ipeps_config.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index bd0bbf2..6a29b44 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -76,11 +76,9 @@ class IpepsConfig:
             job_name = os.getenv('SLURM_JOB_NAME', '')
             job_partition = os.getenv('SLURM_JOB_PARTITION', '')
             if 'interactive' in job_name or job_partition == 'interactive':
-                disable_pbar = False
-            else:
-                disable_pbar = True
-            self.ctmrg.disable_progressbar = disable_pbar
-            self.evolution.disable_progressbar = disable_pbar
+                return
+            self.ctmrg.disable_progressbar = True
+            self.evolution.disable_progressbar = True
 
     def set_dtype(self, dtype):
         """Set the dtype to either the provided value or a default."""
-- 
2.43.0


From 301e5d8203862f55b22033e7ab0e09f2832b8774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:18 +0000
Subject: [PATCH 19/25] fix: use the model class a network was given

Models set without a name share the registry entry "custom", so that setting
the model of one network replaced that of all others.
---
 acetn/ipeps/ipeps.py         | 1 +
 acetn/ipeps/ipeps_config.py  | 1 +
 acetn/model/model_factory.py | 3 ++-
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index cf26981..448f8b9 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -93,6 +93,7 @@ class Ipeps(TensorNetwork):
         name = "custom" if name is None else name.lower()
         model_factory.register(name, model_cls)
         self.config.model.name = name
+        self.config.model.cls = model_cls
         self.config.model.params = dict(params)
 
     def set_model_params(self, **kwargs):
diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index 6a29b44..92c54ac 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -44,6 +44,7 @@ class ModelConfig:
     dim: int
     name: str = None
     params: Dict[str, int] = field(default_factory=lambda: {})
+    cls: type = None
 
 @dataclass
 class IpepsConfig:
diff --git a/acetn/model/model_factory.py b/acetn/model/model_factory.py
index 1f6c703..d18951a 100644
--- a/acetn/model/model_factory.py
+++ b/acetn/model/model_factory.py
@@ -67,7 +67,8 @@ class ModelFactory:
         elif config.name not in self._models:
             raise KeyError(f"Model name: '{config.name}' is not registered.")
         else:
-            return self._models[config.name](config)
+            model_cls = config.cls or self._models[config.name]
+            return model_cls(config)
 
     def list_registered(self):
         """
-- 
2.43.0


From 3484d03520dd7b1bcf5e4aa824d1f3e01822e746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:25 +0000
Subject: [PATCH 20/25] fix: let the simple update run on complex tensors

The initial weights were complex, which clamp does not support.
---
 acetn/evolution/lambda_tensors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/evolution/lambda_tensors.py b/acetn/evolution/lambda_tensors.py
index fb9e9fd..512f95a 100644
--- a/acetn/evolution/lambda_tensors.py
+++ b/acetn/evolution/lambda_tensors.py
@@ -16,7 +16,7 @@ class LambdaTensors:
         self._site_bonds = {}
 
         for bond in bond_list:
-            self._data[bond] = torch.ones(bD, dtype=dtype, device=device)
+            self._data[bond] = torch.ones(bD, dtype=dtype, device=device).real
             self._site_bonds.setdefault(bond.s1, {})[bond.k] = bond
             self._site_bonds.setdefault(bond.s2, {})[(bond.k + 2) % 4] = bond
 
-- 
2.43.0


From d4ec57a363da5a64eb2299fa82afc0e067cd0e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:25 +0000
Subject: [PATCH 21/25] fix: start ALS from the truncated SVD of complex
 tensors

The right factor was conjugated.
---
 acetn/evolution/als_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/evolution/als_solver.py b/acetn/evolution/als_solver.py
index ec1a6b5..200b1ab 100644
--- a/acetn/evolution/als_solver.py
+++ b/acetn/evolution/als_solver.py
@@ -137,7 +137,7 @@ class ALSSolver:
         nD,bD,pD = ar_shape
         a12g_tmp = einsum("yxpq->ypxq", a12g).reshape(nD*pD, nD*pD)
         U,S,Vh = svd(a12g_tmp)
-        V = Vh.mH
+        V = Vh.mT
         S = torch.sqrt(S[:bD]/S[0])
         U = U[:,:bD].reshape(nD,pD,bD)
         V = V[:,:bD].reshape(nD,pD,bD)
-- 
2.43.0


From 281e25b694393e98dace58df28499f854bf577a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 22/25] fix: measure and evolve with the operators, not their
 transposes

Expectation values were those of the transposed operator (a site state
(1, i) had <Y> = -1) and gates were applied transposed.
---
 acetn/evolution/full_update.py   | 2 +-
 acetn/evolution/simple_update.py | 6 +++---
 acetn/evolution/tensor_update.py | 4 ++--
 acetn/measurement/measure.py     | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/acetn/evolution/full_update.py b/acetn/evolution/full_update.py
index 8b95149..f0c9fc3 100644
--- a/acetn/evolution/full_update.py
+++ b/acetn/evolution/full_update.py
@@ -87,7 +87,7 @@ class FullUpdater(TensorUpdater):
             The updated reduced tensors for the first and second sites.
         """
         a12g = einsum("yup,xuq->yxpq", a1r, a2r)
-        a12g = einsum("yxpq,pqrs->yxrs", a12g, gate)
+        a12g = einsum("yxpq,rspq->yxrs", a12g, gate)
 
         n12, a12g = self.precondition_norm_tensor(n12, a12g)
         a1r,a2r = ALSSolver(n12, a12g, a1r.shape, self.config).solve()
diff --git a/acetn/evolution/simple_update.py b/acetn/evolution/simple_update.py
index 068beb0..58e37ed 100644
--- a/acetn/evolution/simple_update.py
+++ b/acetn/evolution/simple_update.py
@@ -45,7 +45,7 @@ class SimpleUpdater(TensorUpdater):
 
         nD, bD, pD = a1r.shape
         a12 = einsum("yup,xuq->ypxq", a1r, a2r)
-        a12g = einsum("ypxq,pqrs->yrxs", a12, self.gate[bond])
+        a12g = einsum("ypxq,rspq->yrxs", a12, self.gate[bond])
 
         # SVD, truncate, and compute new bond lambda tensor
         U, S, Vh = svd(a12g.reshape(nD * pD, nD * pD))
@@ -65,8 +65,8 @@ class SimpleUpdater(TensorUpdater):
         a2 = self.lambda_tensors.strip(a2, bond.s2, exclude_dir=(bond.k + 2) % 4)
 
         if not self.gate.wrap_one_site:
-            a1 = einsum("pq,lurdp->lurdq", self.gate[bond.s1], a1)
-            a2 = einsum("pq,lurdp->lurdq", self.gate[bond.s2], a2)
+            a1 = einsum("qp,lurdp->lurdq", self.gate[bond.s1], a1)
+            a2 = einsum("qp,lurdp->lurdq", self.gate[bond.s2], a2)
 
         self.lambda_tensors[bond] = lambda_tensor
         self.ipeps[bond.s1]['A'] = a1
diff --git a/acetn/evolution/tensor_update.py b/acetn/evolution/tensor_update.py
index 910ff8f..c76a182 100644
--- a/acetn/evolution/tensor_update.py
+++ b/acetn/evolution/tensor_update.py
@@ -33,8 +33,8 @@ class TensorUpdater(ABC):
         a1,a2 = self.tensor_update(a1, a2, bond)
         a1,a2 = self.permute_bond_tensors(a1, a2, 4-k)
         if not self.gate.wrap_one_site:
-            a1 = einsum("pq,lurdp->lurdq", self.gate[bond.s1], a1)
-            a2 = einsum("pq,lurdp->lurdq", self.gate[bond.s2], a2)
+            a1 = einsum("qp,lurdp->lurdq", self.gate[bond.s1], a1)
+            a2 = einsum("qp,lurdp->lurdq", self.gate[bond.s2], a2)
         return a1,a2
 
     def permute_bond_tensors(self, a1, a2, k):
diff --git a/acetn/measurement/measure.py b/acetn/measurement/measure.py
index c2753e9..dc6e0f4 100644
--- a/acetn/measurement/measure.py
+++ b/acetn/measurement/measure.py
@@ -181,7 +181,7 @@ def measure_one_site(rdm, operator):
     Returns:
         float: The expectation value of the operator.
     """
-    return einsum("Pp,pP->", rdm, operator).real
+    return einsum("Pp,Pp->", rdm, operator).real
 
 
 def measure_two_site(rdm, operator):
@@ -195,4 +195,4 @@ def measure_two_site(rdm, operator):
     Returns:
         float: The expectation value of the operator.
     """
-    return einsum("PQpq,pqPQ->", rdm, operator).real
+    return einsum("PQpq,PQpq->", rdm, operator).real
-- 
2.43.0


From 64daccfffd3331697327f005171dc08dcfe54d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 23/25] fix: in-place product of real Pauli Y matrices has the
 sign of the product

---
 acetn/model/pauli_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/model/pauli_matrix.py b/acetn/model/pauli_matrix.py
index c3d9259..ecdfcdb 100644
--- a/acetn/model/pauli_matrix.py
+++ b/acetn/model/pauli_matrix.py
@@ -85,7 +85,7 @@ class PauliMatrix:
             PauliMatrix or torch.Tensor: A new `PauliMatrix` object (in the case of scalar) or a tensor (in the case of matrix Kronecker product).
         """
         if isinstance(other, (PauliMatrix)):
-            return torch.kron(self.mat, other.mat)
+            return (self * other).mat
         else:
             return PauliMatrix(self.key, self.dtype, self.device, mat=other*self.mat)
 
-- 
2.43.0


From 939bb32cef724c2a01f2621d243090b3f7b62051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 24/25] fix: dimensions left out of the configuration have
 their documented defaults

---
 acetn/ipeps/ipeps_config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index 92c54ac..ddf60b5 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -14,6 +14,9 @@ class TNConfig:
     dims: Dict[str, int] = field(
         default_factory=lambda: {'phys': 2, 'bond': 2, 'chi': 20})
 
+    def __post_init__(self):
+        self.dims = {'phys': 2, 'bond': 2, 'chi': 20, **self.dims}
+
 @dataclass
 class CTMRGConfig:
     steps: int = 40
-- 
2.43.0


From 30cc157c8a1435cf02ec0882eea650ac5dcc1398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:07 +0000
Subject: [PATCH 25/25] fix: give copies of a network their own dimensions

---
 acetn/ipeps/tensor_network.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acetn/ipeps/tensor_network.py b/acetn/ipeps/tensor_network.py
index 18ab0aa..a44c3f0 100644
--- a/acetn/ipeps/tensor_network.py
+++ b/acetn/ipeps/tensor_network.py
@@ -1,4 +1,5 @@
 import torch
+from copy import deepcopy
 from .site_tensor import SiteTensor
 from .bond import Bond
 
@@ -75,7 +76,7 @@ class TensorNetwork:
         Returns:
             TensorNetwork: A new `TensorNetwork` with identical contents and metadata.
         """
-        return TensorNetwork(tensor_network=self, config=self.tn_config, dtype=self.dtype, device=self.device)
+        return TensorNetwork(tensor_network=self, config=deepcopy(self.tn_config), dtype=self.dtype, device=self.device)
 
     def to(self, dtype=None, device=None):
         """
@@ -90,7 +91,7 @@ class TensorNetwork:
         """
         device = device or self.device
         dtype = dtype or self.dtype
-        return TensorNetwork(tensor_network=self, config=self.tn_config, dtype=dtype, device=device)
+        return TensorNetwork(tensor_network=self, config=deepcopy(self.tn_config), dtype=dtype, device=device)
 
     def save(self, filename='ipeps.pt'):
         """
-- 
2.43.0

