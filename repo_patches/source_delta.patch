From 98096879feb0fe27e096eb0bc8d2bec4e7ccc7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:27 +0000
Subject: [PATCH 01/23] fix: sequential Potts3 sampling with the C++ library
 must sample the Potts model

Potts3 inherited Metropolis.generate_sample_boost, which builds a BoostIsing sampler, so
sequential sampling returned +/-1 Ising states instead of 0,1,2 Potts states.
---
 coniii/samplers.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index a8c6258..275c3d4 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1816,6 +1816,35 @@ class Potts3(Metropolis):
             self.generate_sample = self.generate_sample_py
             self.generate_sample_parallel = self.generate_sample_parallel_py
 
+    def generate_sample_boost(self,
+                               sample_size,
+                               n_iters=1000,
+                               burn_in=None,
+                               systematic_iter=False):
+        """Generate Metropolis samples using C++ and boost.
+
+        Parameters
+        ----------
+        sample_size : int
+            Number of samples.
+        n_iters : int, 1000
+            Number of Metropolis iterations between samples.
+        burn_in : int, None
+            If not set, will be the same value as n_iters.
+        systematic_iter : bool, False
+            If True, iterate through each element of system by increment index by one. 
+        """
+        
+        burn_in = burn_in or n_iters
+        assert sample_size>0 and n_iters>-1 and burn_in>-1
+        
+        bsampler = BoostPotts3(self.n, self.theta, int(self.rng.randint(0, 2**31-1)))
+        bsampler.generate_sample(sample_size,
+                                 burn_in,
+                                 n_iters,
+                                 systematic_iter)
+        self.sample = bsampler.fetch_sample().astype(int)
+
     def generate_sample_parallel_boost(self,
                                         sample_size,
                                         n_iters=1000,
-- 
2.43.0


From b8303d7c074b905d640dafc524cb03ddb361e72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:14 +0000
Subject: [PATCH 02/23] fix: C++ samplers must accept parameters of any dtype
 or memory layout

The raw buffer was reinterpreted as contiguous doubles, so integer or strided parameter
vectors were silently sampled as garbage.
---
 cpp/samplers.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cpp/samplers.cpp b/cpp/samplers.cpp
index 8787239..637b0bf 100644
--- a/cpp/samplers.cpp
+++ b/cpp/samplers.cpp
@@ -306,7 +306,9 @@ Ising::Ising(int n, np::ndarray new_multipliers, int seed)
 void Ising::readin_multipliers(np::ndarray new_multipliers) {
     int input_size = new_multipliers.shape(0);
     assert (input_size==(n+n*(n-1)/2));
-    double* input_ptr = reinterpret_cast<double*>(new_multipliers.get_data());
+    // copy into contiguous array of doubles since any dtype or strides may be given
+    np::ndarray values = new_multipliers.astype(np::dtype::get_builtin<double>());
+    double* input_ptr = reinterpret_cast<double*>(values.get_data());
     multipliers = std::vector<double>(input_size);
     for (int i = 0; i < input_size; ++i) {
         multipliers[i] = *(input_ptr + i);
@@ -396,7 +398,9 @@ Potts3::Potts3(int n, np::ndarray new_multipliers, int seed)
 void Potts3::readin_multipliers(np::ndarray new_multipliers) {
     int input_size = new_multipliers.shape(0);
     assert (input_size==(n*3+n*(n-1)/2));
-    double* input_ptr = reinterpret_cast<double*>(new_multipliers.get_data());
+    // copy into contiguous array of doubles since any dtype or strides may be given
+    np::ndarray values = new_multipliers.astype(np::dtype::get_builtin<double>());
+    double* input_ptr = reinterpret_cast<double*>(values.get_data());
     multipliers = std::vector<double>(input_size);
     for (int i = 0; i < input_size; ++i) {
         multipliers[i] = *(input_ptr + i);
-- 
2.43.0


From cdca86fec0ca8e2e18f0e8d6b350450d6af0cd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:14 +0000
Subject: [PATCH 03/23] fix: ParallelTempering replicas must be seeded from the
 given rng

Replicas were seeded from the operating system so that results were not reproducible even
when rng was specified.
---
 coniii/samplers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 275c3d4..7fc1d8d 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -682,7 +682,9 @@ class ParallelTempering(Sampler):
 
         self.replicas = []
         for i,b in enumerate(self.beta):
-            self.replicas.append( Metropolis(self.n, self.theta*b, self.calc_e, boost=False) )
+            self.replicas.append( Metropolis(self.n, self.theta*b, self.calc_e,
+                                              rng=np.random.RandomState(self.rng.randint(2**31-1)),
+                                              boost=False) )
             # give each replica an index
             self.replicas[i].index = i
         self.burn_in_replicas()
-- 
2.43.0


From 83918ec575580a265da11b169d768c5e1cd9ed4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:35 +0000
Subject: [PATCH 04/23] fix: energy history of Metropolis sampler must start
 with the initial energy

The first entry was overwritten and the last entry of the history was always 0.
---
 coniii/samplers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 7fc1d8d..efab813 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1282,9 +1282,10 @@ class Metropolis(Sampler):
         
         if saveHistory:
             history = np.zeros(sample_size*n_iters+1)
+            history[0] = E
 
             if systematic_iter:
-                counter = 0
+                counter = 1
                 for i in range(sample_size):
                     for j in range(n_iters):
                         de = self.sample_metropolis( self._samples[0], E, flip_site=j%self.n )
@@ -1294,7 +1295,7 @@ class Metropolis(Sampler):
                     self.sample[i,:] = self._samples[:]
                     self.E[i] = E
             else:
-                counter = 0
+                counter = 1
                 for i in range(sample_size):
                     for j in range(n_iters):
                         de = self.sample_metropolis( self._samples[0], E )
-- 
2.43.0


From 5e1cb9a810234d1f8541e7bd0ca9c15c4c1913e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:35 +0000
Subject: [PATCH 05/23] fix: WolffIsing does not run with current numpy and
 numba

np.bool was removed from numpy and numba does not know the builtin int as a dtype.
---
 coniii/samplers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index efab813..2871848 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -367,7 +367,7 @@ class WolffIsing(Sampler):
         # (1-exp(-2*J))
 
         # Find neighbors but keep only neighbors that have not already been visited.
-        ix = np.zeros((self.n),dtype=np.bool)
+        ix = np.zeros((self.n),dtype=bool)
         ix[alreadyMarked] = True
         ix[site] = True
         neighbors = iterate_neighbors(self.n,ix,self.expdJ[:,site],self.rng.rand(self.n)).tolist()
@@ -395,7 +395,7 @@ def iterate_neighbors(n,ix,expdJ,r):
     """
 
     counter=0
-    neighbors=np.zeros((n), dtype=int)
+    neighbors=np.zeros((n), dtype=np.int64)
     for i in range(n):
         # Don't include neighbors that are already marked.
         # Check against probability as specified in Wolff's paper for forming link.
-- 
2.43.0


From f9025e6cd4fd6ee1f0ee965d1053fa3c12639503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:01 +0000
Subject: [PATCH 06/23] fix: worker pools must be released when sampling fails

An exception from a worker or an interrupt left the pool of worker processes open.
---
 coniii/samplers.py | 72 ++++++++++++++++++++++------------------------
 1 file changed, 34 insertions(+), 38 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 2871848..2e43466 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -289,9 +289,8 @@ class WolffIsing(Sampler):
                 self.one_step(s,initialsite=j%self.n)
             return s
         
-        pool=mp.Pool(mp.cpu_count())
-        sample=np.vstack(pool.map(f,list(zip(sample,np.random.randint(2**31-1,size=samplesize)))))
-        pool.close()
+        with mp.Pool(mp.cpu_count()) as pool:
+            sample=np.vstack(pool.map(f,list(zip(sample,np.random.randint(2**31-1,size=samplesize)))))
         return sample
 
     def _generate_sample(self,samplesize,sampleseparation):
@@ -711,10 +710,11 @@ class ParallelTempering(Sampler):
             rep.generate_sample(1, n_iters=nIters, systematic_iter=True)
             return rep
         pool = pool or Pool()
-        self.replicas = pool.map(f, zip(self.replicas, [n_iters]*len(self.replicas)))
-
-        if close_pool:
-            pool.close()
+        try:
+            self.replicas = pool.map(f, zip(self.replicas, [n_iters]*len(self.replicas)))
+        finally:
+            if close_pool:
+                pool.close()
 
     def burn_and_exchange(self, pool):
         """
@@ -767,30 +767,28 @@ class ParallelTempering(Sampler):
         """
         
         self.sample = [np.zeros((sample_size,self.n), dtype=int) for i in range(self.nReplicas)]
-        pool = Pool()
         
-        if save_exchange_trajectory:
-            replicaIndexHistory = np.zeros((sample_size, self.nReplicas), dtype=int)
+        with Pool() as pool:
+            if save_exchange_trajectory:
+                replicaIndexHistory = np.zeros((sample_size, self.nReplicas), dtype=int)
 
-            for i in range(sample_size):
-                self.burn_and_exchange(pool)
+                for i in range(sample_size):
+                    self.burn_and_exchange(pool)
 
-                # save samples
-                for j in range(self.nReplicas):
-                    self.sample[j][i,:] = self.replicas[j].sample[0,:]
-                    replicaIndexHistory[i,j] = self.replicas[j].index
-            pool.close()
+                    # save samples
+                    for j in range(self.nReplicas):
+                        self.sample[j][i,:] = self.replicas[j].sample[0,:]
+                        replicaIndexHistory[i,j] = self.replicas[j].index
 
-            return replicaIndexHistory
+                return replicaIndexHistory
 
-        else:
-            for i in range(sample_size):
-                self.burn_and_exchange(pool)
+            else:
+                for i in range(sample_size):
+                    self.burn_and_exchange(pool)
 
-                # save samples
-                for j in range(self.nReplicas):
-                    self.sample[j][i,:] = self.replicas[j].sample[0,:]
-            pool.close()
+                    # save samples
+                    for j in range(self.nReplicas):
+                        self.sample[j][i,:] = self.replicas[j].sample[0,:]
     
     @staticmethod
     def initialize_beta(b0, b1, n_replicas):
@@ -893,15 +891,14 @@ class ParallelTempering(Sampler):
 
         # estimate acceptance probabilities
         if n_iters>0:
-            pool = Pool()
-            for i in range(n_samples):
-                self.burn_in_replicas(pool=pool, close_pool=False, n_iters=n_iters)
-                
-                for j,p in enumerate(pairs):
-                    # must divide out self.beta to get energies
-                    dE = self.replicas[p[0]].E/self.beta[p[0]] - self.replicas[p[1]].E/self.beta[p[1]]
-                    acceptanceRatio[j,i] = min(1, np.exp( dE * (self.beta[p[0]]-self.beta[p[1]]) ))
-            pool.close()
+            with Pool() as pool:
+                for i in range(n_samples):
+                    self.burn_in_replicas(pool=pool, close_pool=False, n_iters=n_iters)
+                    
+                    for j,p in enumerate(pairs):
+                        # must divide out self.beta to get energies
+                        dE = self.replicas[p[0]].E/self.beta[p[0]] - self.replicas[p[1]].E/self.beta[p[1]]
+                        acceptanceRatio[j,i] = min(1, np.exp( dE * (self.beta[p[0]]-self.beta[p[1]]) ))
         else:
             for j,p in enumerate(pairs):
                 # must divide out self.beta to get energies
@@ -1884,10 +1881,9 @@ class Potts3(Metropolis):
             bsampler.generate_sample(nSamples, burn_in, n_iters, systematic_iter)
             return bsampler.fetch_sample().astype(int)
         
-        pool = mp.Pool(n_cpus)
-        self.sample = np.vstack( list(pool.map(f, zip([int(np.ceil(sample_size/n_cpus))]*n_cpus,
-                                                        self.rng.randint(2**31-1, size=n_cpus)))) )
-        pool.close()
+        with mp.Pool(n_cpus) as pool:
+            self.sample = np.vstack( list(pool.map(f, zip([int(np.ceil(sample_size/n_cpus))]*n_cpus,
+                                                            self.rng.randint(2**31-1, size=n_cpus)))) )
 
         self.sample = np.vstack(self.sample)[:sample_size]
 
-- 
2.43.0


From f4b3c7f85863f9162a68e986e9627e12ca821668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:01 +0000
Subject: [PATCH 07/23] fix: WolffIsing parallel sampling must draw seeds from
 the sampler's rng

Seeds came from the global numpy generator instead of self.rng.
---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 2e43466..f5405f0 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -290,7 +290,7 @@ class WolffIsing(Sampler):
             return s
         
         with mp.Pool(mp.cpu_count()) as pool:
-            sample=np.vstack(pool.map(f,list(zip(sample,np.random.randint(2**31-1,size=samplesize)))))
+            sample=np.vstack(pool.map(f,list(zip(sample,self.rng.randint(2**31-1,size=samplesize)))))
         return sample
 
     def _generate_sample(self,samplesize,sampleseparation):
-- 
2.43.0


From b3df71c7b2b22d184437c04e4152b4eeedd99f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 08/23] fix: ParallelTempering must not expose a partially
 filled sample when sampling fails

---
 coniii/samplers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index f5405f0..77656a1 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -766,7 +766,7 @@ class ParallelTempering(Sampler):
             index is located in beta space.
         """
         
-        self.sample = [np.zeros((sample_size,self.n), dtype=int) for i in range(self.nReplicas)]
+        sample = [np.zeros((sample_size,self.n), dtype=int) for i in range(self.nReplicas)]
         
         with Pool() as pool:
             if save_exchange_trajectory:
@@ -777,9 +777,10 @@ class ParallelTempering(Sampler):
 
                     # save samples
                     for j in range(self.nReplicas):
-                        self.sample[j][i,:] = self.replicas[j].sample[0,:]
+                        sample[j][i,:] = self.replicas[j].sample[0,:]
                         replicaIndexHistory[i,j] = self.replicas[j].index
 
+                self.sample = sample
                 return replicaIndexHistory
 
             else:
@@ -788,7 +789,9 @@ class ParallelTempering(Sampler):
 
                     # save samples
                     for j in range(self.nReplicas):
-                        self.sample[j][i,:] = self.replicas[j].sample[0,:]
+                        sample[j][i,:] = self.replicas[j].sample[0,:]
+
+                self.sample = sample
     
     @staticmethod
     def initialize_beta(b0, b1, n_replicas):
-- 
2.43.0


From 80668f07f8e43e93f28a95e33fb4fe0cf18d88b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:17 +0000
Subject: [PATCH 09/23] fix: sequential sampling must not take over the
 replicas of a parallel run

generate_sample_py() with sample_size equal to the number of replicas left behind by
generate_sample_parallel_py() tried to use all of them as one initial state.
---
 coniii/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 77656a1..3303b85 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1259,7 +1259,7 @@ class Metropolis(Sampler):
         
         burn_in = burn_in or n_iters
         if (initial_sample is None and
-            (self._samples is None or len(self._samples)!=sample_size)):
+            (self._samples is None or sample_size!=1 or len(self._samples)!=1)):
             self._samples = self.random_sample(1)
         elif not initial_sample is None:
             msg = "Initial sample can only be one state for sequential sampling."
-- 
2.43.0


From d049d7948491110224c89b147a0d9995d478889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:17 +0000
Subject: [PATCH 10/23] fix: samplers must not overwrite the initial sample
 passed by the caller

---
 coniii/samplers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index 3303b85..c3bd269 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -252,7 +252,7 @@ class WolffIsing(Sampler):
 
         if initialSample is None:
             sample = self.rng.choice([-1.,1.],size=(samplesize,self.n))
-        else: sample = initialSample
+        else: sample = initialSample.copy()
         
         if save_history:
             history = np.zeros((samplesize,self.n,n_iters+1))
@@ -277,7 +277,7 @@ class WolffIsing(Sampler):
 
         if initialSample is None:
             sample = self.rng.choice([-1.,1.],size=(samplesize,self.n))
-        else: sample = initialSample
+        else: sample = initialSample.copy()
         #if (n_iters%self.n)!=0:
         #    n_iters = (n_iters//self.n+1)*self.n  # hit each spin the same number of times
         #    print "Increased n_iters to %d"%n_iters
@@ -1571,7 +1571,7 @@ class Metropolis(Sampler):
         if initial_sample is None:
             self.sample = self.rng.choice([-1,1], size=(sample_size, nSubset))
         else:
-            self.sample = initial_sample
+            self.sample = initial_sample.copy()
         
         # Redefine calc_e to calculate energy and putting back in the fixed spins.
         def cond_calc_e(state, theta):
-- 
2.43.0


From e3b2fbe1794a4ed5398f68a7fc67d626c7755eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:10 +0000
Subject: [PATCH 11/23] fix: Ising2D must accept an array of local fields or an
 integer field

'h or np.zeros(dim)' raised ValueError for arrays, and integers were kept as scalars.
---
 coniii/ising/automaton.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index 2f959e1..b94f78d 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -28,10 +28,7 @@ class Ising2D():
         self.dim = dim
         self.lattice = ((np.random.rand(*dim)<.5)*2.-1).astype(np.int8)
         self.J = J
-        if type(h) is float or type(h) is type(int):
-            self.h = np.zeros(dim)+h
-        else:
-            self.h = h or np.zeros(dim)
+        self.h = np.zeros(dim)+h
         self.rng = rng or np.random.RandomState()
 
     def iterate(self, n_iters, systematic=True):
-- 
2.43.0


From 035e177eade5bb826bd11f3e08111815bf4a45ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:10 +0000
Subject: [PATCH 12/23] fix: Ising2D must use the random number generator it is
 given

The initial lattice came from the global generator and the updates from numba's unseeded one.
---
 coniii/ising/automaton.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index b94f78d..f35a419 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -26,10 +26,10 @@ class Ising2D():
         
         assert len(dim)==2, "Must specify only x and y dimensions."
         self.dim = dim
-        self.lattice = ((np.random.rand(*dim)<.5)*2.-1).astype(np.int8)
+        self.rng = rng or np.random.RandomState()
+        self.lattice = ((self.rng.rand(*dim)<.5)*2.-1).astype(np.int8)
         self.J = J
         self.h = np.zeros(dim)+h
-        self.rng = rng or np.random.RandomState()
 
     def iterate(self, n_iters, systematic=True):
         """
@@ -44,14 +44,16 @@ class Ising2D():
 
         if not systematic:
             @njit
-            def single_iteration(lattice, dim=self.dim, h=self.h, J=self.J):
+            def single_iteration(lattice, seed, dim=self.dim, h=self.h, J=self.J):
+                np.random.seed(seed)
                 for i in range(n_iters):
                     i, j=np.random.randint(dim[0]), np.random.randint(dim[1])
                     flip_metropolis(i, j, h[i,j], J, lattice)
         else:
             # Fast iteration using jit.
             @njit
-            def single_iteration(lattice, dim=self.dim, h=self.h, J=self.J, size=self.dim[0]*self.dim[1]):
+            def single_iteration(lattice, seed, dim=self.dim, h=self.h, J=self.J, size=self.dim[0]*self.dim[1]):
+                np.random.seed(seed)
                 # Randomly order the lattice points for flipping or else lattice will be very important.
                 ix = np.random.permutation( np.arange(dim[0]*dim[1]) )[:size]
                 for ix_ in ix:
@@ -61,7 +63,8 @@ class Ising2D():
         lattice=self.lattice
         counter = 0
         while counter < n_iters:
-            single_iteration(lattice)
+            # jitted code has its own random number generator
+            single_iteration(lattice, self.rng.randint(2**31-1))
             counter += self.dim[0]*self.dim[1]
         self.lattice = lattice
 
-- 
2.43.0


From 74cb3b9e04d6459e3a49241f1d2bb7ae2931021a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:10 +0000
Subject: [PATCH 13/23] fix: sign of the local field in Ising2D

Spins were driven against their field, unlike everywhere else in the package (E = -h s - J s s').
---
 coniii/ising/automaton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index f35a419..47cf805 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -102,7 +102,7 @@ class Ising2D():
             dE-=2*J
         
         # Local field.
-        dE-=2*lattice[i,j]*h
+        dE+=2*lattice[i,j]*h
         
         if dE<=0:
             lattice[i,j]*=-1
-- 
2.43.0


From 2e4ad1fd4f9e7a409ecec1aa95547dff78a8fe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:11 +0000
Subject: [PATCH 14/23] fix: coarse_grain must handle rectangular lattices

---
 coniii/ising/automaton.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/ising/automaton.py b/coniii/ising/automaton.py
index 47cf805..d73e51a 100644
--- a/coniii/ising/automaton.py
+++ b/coniii/ising/automaton.py
@@ -125,11 +125,11 @@ def coarse_grain(lattice, factor):
     """
 
     reLattice=np.zeros((lattice.shape[0]//factor, lattice.shape[1]//factor), dtype=np.int16)
-    reL=len(reLattice)
+    reX,reY=reLattice.shape
 
     for i in range(factor):
         for j in range(factor):
-            reLattice+=lattice[i::factor,j::factor][:reL,:reL]
+            reLattice+=lattice[i::factor,j::factor][:reX,:reY]
     reLattice=np.sign(reLattice)
     # when there is a tie, randomly choose a direction
     reLattice[reLattice==0]=np.random.choice([-1,1], size=(reLattice==0).sum())
-- 
2.43.0


From d8f4e5e8fc98973132f6932de6feb83d86852bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:01 +0000
Subject: [PATCH 15/23] fix: generated equation files must be replaced
 atomically

An interrupted or failed write left a truncated module under the final name, destroying any
complete file that had been there.
---
 coniii/enumerate.py       | 28 ++++++++++++++++++++++++++--
 coniii/enumerate_potts.py | 12 +++++++-----
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/coniii/enumerate.py b/coniii/enumerate.py
index 82e2220..188874a 100755
--- a/coniii/enumerate.py
+++ b/coniii/enumerate.py
@@ -32,7 +32,9 @@
 import numpy as np
 import mpmath as mp
 import scipy.special as ss
+from io import StringIO
 from itertools import combinations
+import os
 import sys
 np.set_printoptions(threshold=sys.maxsize)
 
@@ -154,7 +156,7 @@ def write_py(n, sym, contraintTermsIx, signs, expterms, Z,
     print("Generating file ./%s"%fname)
     if not os.path.isdir('./ising_eqn'):
         os.makedirs('./ising_eqn')
-    f = open(fname,'w')
+    f = StringIO()
     # insert license
     try:
         license = open('LICENSE.txt','r').readlines()
@@ -244,7 +246,29 @@ def write_py(n, sym, contraintTermsIx, signs, expterms, Z,
 
     f.write(extra)
     f.write("\n    return(Pout)\n")
-    f.close()
+    write_file(fname, f.getvalue())
+
+def write_file(fname, text):
+    """Write text to file such that there is never an incomplete file under the given name,
+    and an existing file is kept until its replacement is complete.
+
+    Parameters
+    ----------
+    fname : str
+    text : str
+    """
+
+    tmpname = '%s.tmp%d'%(fname, os.getpid())
+    try:
+        with open(tmpname, 'w') as f:
+            f.write(text)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(tmpname, fname)
+    except BaseException:
+        if os.path.exists(tmpname):
+            os.remove(tmpname)
+        raise
 
 def _write_energy_terms(f, Z):
     """Split expression for energy terms for each term in Z into multiple lines and write
diff --git a/coniii/enumerate_potts.py b/coniii/enumerate_potts.py
index a51e035..00e4248 100644
--- a/coniii/enumerate_potts.py
+++ b/coniii/enumerate_potts.py
@@ -33,7 +33,8 @@ import sys
 import numpy as np
 import re
 from datetime import datetime
-from .enumerate import fast_logsumexp
+from io import StringIO
+from .enumerate import fast_logsumexp, write_file
 from .utils import xpotts_states
 from itertools import combinations
 
@@ -90,10 +91,11 @@ class PythonFileWriterBase():
         """Write equations to file.
         """
 
-        with open(fname, 'w') as f:
-            self._write_header(f)
-            self._write_correlations(f)
-            self._write_probabilities(f)
+        f = StringIO()
+        self._write_header(f)
+        self._write_correlations(f)
+        self._write_probabilities(f)
+        write_file(fname, f.getvalue())
 
     def _write_header(self, f):
         """
-- 
2.43.0


From 03ff7ea1bb79f0264d39fd58ba31934d36e55726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 16/23] fix: equation files must not depend on numpy's global
 print options

With a lower print threshold coefficients were abbreviated to '...', giving wrong equations.
---
 coniii/enumerate.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/coniii/enumerate.py b/coniii/enumerate.py
index 188874a..7431657 100755
--- a/coniii/enumerate.py
+++ b/coniii/enumerate.py
@@ -196,7 +196,7 @@ def write_py(n, sym, contraintTermsIx, signs, expterms, Z,
         for i in range(len(contraintTermsIx)):
             for j in range(len(signs[i])):
                 eqns += ("    num = fast_logsumexp(energyTerms, "+
-                         str(signs[i][j]).replace('1 ','1,').replace('1\n','1,\n')+
+                         _coeffs_to_str(signs[i][j])+
                          ")\n    Cout["+str(k)+"] = exp( num[0] - logZ ) * num[1]\n")
                 k += 1
     else:
@@ -204,7 +204,7 @@ def write_py(n, sym, contraintTermsIx, signs, expterms, Z,
         for i in range(len(contraintTermsIx)):
             for j in range(len(signs[i])):
                 eqns += ("    num = fast_logsumexp(energyTerms, "+
-                 str(signs[i][j]).replace('0 ','0,').replace('1 ','1,').replace('0\n','0,\n').replace('1\n','1,\n')+
+                 _coeffs_to_str(signs[i][j])+
                  ")\n    Cout["+str(k)+"] = exp( num[0] - logZ ) * num[1]\n")
                 k += 1
     
@@ -248,6 +248,11 @@ def write_py(n, sym, contraintTermsIx, signs, expterms, Z,
     f.write("\n    return(Pout)\n")
     write_file(fname, f.getvalue())
 
+def _coeffs_to_str(x):
+    """All elements of integer array, whatever the global print options of numpy are."""
+
+    return np.array2string(x, separator=',', threshold=sys.maxsize, formatter={'int':lambda i:'%2d'%i})
+
 def write_file(fname, text):
     """Write text to file such that there is never an incomplete file under the given name,
     and an existing file is kept until its replacement is complete.
-- 
2.43.0


From 16d38367e68d42df51f70f0f98ef86e6f9c569d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 17/23] fix: a failed sequential sampling call must not leave a
 partially filled sample

---
 coniii/samplers.py | 59 +++++++++++++++++++++++-----------------------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/coniii/samplers.py b/coniii/samplers.py
index c3bd269..2a53ff2 100644
--- a/coniii/samplers.py
+++ b/coniii/samplers.py
@@ -1267,8 +1267,9 @@ class Metropolis(Sampler):
             self._samples = initial_sample.astype(int)
 
         E = self.calc_e( self._samples, self.theta )
-        self.sample = np.zeros((sample_size, self.n), dtype=int)
-        self.E = np.zeros(sample_size)
+        # only saved to self when complete such that a failed call leaves no partial sample
+        sample = np.zeros((sample_size, self.n), dtype=int)
+        energies = np.zeros(sample_size)
         
         # burn in
         if systematic_iter:
@@ -1292,8 +1293,8 @@ class Metropolis(Sampler):
                         E += de
                         history[counter] = E
                         counter += 1
-                    self.sample[i,:] = self._samples[:]
-                    self.E[i] = E
+                    sample[i,:] = self._samples[:]
+                    energies[i] = E
             else:
                 counter = 1
                 for i in range(sample_size):
@@ -1302,8 +1303,9 @@ class Metropolis(Sampler):
                         E += de
                         history[counter]=E
                         counter += 1
-                    self.sample[i,:] = self._samples[:]
-                    self.E[i] = E
+                    sample[i,:] = self._samples[:]
+                    energies[i] = E
+            self.sample, self.E = sample, energies
             return history
         else:
             if systematic_iter:
@@ -1313,8 +1315,8 @@ class Metropolis(Sampler):
                         de = self.sample_metropolis( self._samples[0], E, flip_site=j%self.n )
                         E += de
                         counter +=1
-                    self.sample[i,:] = self._samples[:]
-                    self.E[i] = E
+                    sample[i,:] = self._samples[:]
+                    energies[i] = E
             else:
                 counter = 0
                 for i in range(sample_size):
@@ -1322,8 +1324,10 @@ class Metropolis(Sampler):
                         de = self.sample_metropolis( self._samples[0], E )
                         E += de
                         counter += 1
-                    self.sample[i,:] = self._samples[:]
-                    self.E[i] = E
+                    sample[i,:] = self._samples[:]
+                    energies[i] = E
+
+        self.sample, self.E = sample, energies
 
     def generate_sample_parallel_boost(self,
                                         sample_size,
@@ -1567,11 +1571,12 @@ class Metropolis(Sampler):
         assert (np.diff(fixed_subset_[0]) > 0).all()
         assert frozenset((-1,1)) >= set(fixed_subset_[1])
 
-        # Initialize sampler.
+        # Initialize sampler. Only saved to self when complete such that a failed call leaves no
+        # partial sample.
         if initial_sample is None:
-            self.sample = self.rng.choice([-1,1], size=(sample_size, nSubset))
+            sample = self.rng.choice([-1,1], size=(sample_size, nSubset))
         else:
-            self.sample = initial_sample.copy()
+            sample = initial_sample.copy()
         
         # Redefine calc_e to calculate energy and putting back in the fixed spins.
         def cond_calc_e(state, theta):
@@ -1590,7 +1595,7 @@ class Metropolis(Sampler):
                 fullstate[0,ii] = state[0,stateix]
                 stateix += 1
             return self.calc_e(fullstate, theta)
-        self.E = np.array([cond_calc_e(s[None,:], self.theta) for s in self.sample])
+        energies = np.array([cond_calc_e(s[None,:], self.theta) for s in sample])
 
         # Parallel sample.
         if parallel:
@@ -1613,15 +1618,11 @@ class Metropolis(Sampler):
                         E += de
                     return s, E
             
-            # avoid pickling a copy of self.sample into every thread
-            samples = self.sample
-            self.sample = None
-
             with mp.Pool() as pool:
                 # evolve each sample for burn_in steps
-                args = zip(samples, self.E, self.rng.randint(0, 2**31-1, size=sample_size))
-                self.sample, self.E = list(zip(*pool.map(f, args)))
-            self.sample = np.vstack(self.sample)
+                args = zip(sample, energies, self.rng.randint(0, 2**31-1, size=sample_size))
+                sample, energies = list(zip(*pool.map(f, args)))
+            sample = np.vstack(sample)
 
         else:
             if not systematic_iter:
@@ -1639,8 +1640,8 @@ class Metropolis(Sampler):
                             de = self.sample_metropolis(s, E, rng=self.rng, calc_e=cond_calc_e)
                             E += de
                             counter += 1
-                        self.sample[i,:] = s[:]
-                        self.E[i] = E
+                        sample[i,:] = s[:]
+                        energies[i] = E
             else:
                 def loop():
                     s = self.rng.choice([-1,1], size=nSubset)
@@ -1656,8 +1657,8 @@ class Metropolis(Sampler):
                             de = self.sample_metropolis(s, E, rng=self.rng, flip_site=j%nSubset, calc_e=cond_calc_e)
                             E += de
                             counter += 1
-                        self.sample[i,:] = s[:]
-                        self.E[i] = E
+                        sample[i,:] = s[:]
+                        energies[i] = E
             # run sampling
             loop()
 
@@ -1665,13 +1666,13 @@ class Metropolis(Sampler):
         counter = 0
         for i, s in fixed_subset:
             if i==0:
-                self.sample = np.insert(self.sample, list(range(i, self.sample.size, nSubset+counter)), s)
+                sample = np.insert(sample, list(range(i, sample.size, nSubset+counter)), s)
             else:
-                self.sample = np.insert(self.sample, list(range(i, self.sample.size+1, nSubset+counter)), s)
+                sample = np.insert(sample, list(range(i, sample.size+1, nSubset+counter)), s)
             counter += 1
 
-        self.sample = np.reshape(self.sample, (sample_size, self.n))
-        self.E = np.concatenate(self.E)
+        self.sample = np.reshape(sample, (sample_size, self.n))
+        self.E = np.concatenate(energies)
 
     def sample_metropolis(self, sample0, E0,
                           rng=None,
-- 
2.43.0


From 6a6b22fd5394f68782f281de64b77e3e4fb8e7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:58 +0000
Subject: [PATCH 18/23] fix: MCH solvers left the last round's sample size set
 on the model, changing later solves

---
 coniii/solvers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index dbd407f..21ed9ff 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -900,7 +900,7 @@ class MCH(Solver):
         # MCH iterations.
         counter = 0  # number of MCMC and MCH steps
         keepLooping = True  # loop control
-        learn_params_kwargs, self.model.sampleSize = custom_convergence_f(counter)
+        learn_params_kwargs, sampleSize = custom_convergence_f(counter)
         while keepLooping:
             # MCH step
             if iprint:
@@ -915,6 +915,7 @@ class MCH(Solver):
                 print("Sampling...")
             self.model.generate_sample(n_iters, burn_in,
                                         multipliers=self._multipliers,
+                                        sample_size=sampleSize,
                                         generate_kwargs=generate_kwargs)
             thisConstraints = self.calc_observables(self.model.sample).mean(0)
             counter += 1
@@ -933,13 +934,14 @@ class MCH(Solver):
                 errflag = 1
                 keepLooping=False
             else:
-                learn_params_kwargs, self.model.sampleSize = custom_convergence_f(counter)
+                learn_params_kwargs, sampleSize = custom_convergence_f(counter)
         
         self.multipliers = self._multipliers.copy()
 
         # generate sample given these multipliers
         self.model.generate_sample(n_iters, burn_in,
                                     multipliers=self._multipliers,
+                                    sample_size=sampleSize,
                                     generate_kwargs=generate_kwargs)
         
         if full_output:
@@ -1229,7 +1231,7 @@ class SparseMCH(Solver):
         # MCH iterations.
         counter = 0  # number of MCMC and MCH steps
         keepLooping = True  # loop control
-        learn_params_kwargs, self.model.sampleSize = custom_convergence_f(counter)
+        learn_params_kwargs, sampleSize = custom_convergence_f(counter)
         while keepLooping:
             # MCH step
             if iprint:
@@ -1244,6 +1246,7 @@ class SparseMCH(Solver):
                 print("Sampling...")
             self.model.generate_sample( n_iters, burn_in,
                                          multipliers=self._multipliers,
+                                         sample_size=sampleSize,
                                          generate_kwargs=generate_kwargs )
             thisConstraints = self.calc_observables(self.model.sample).mean(0)[self.parameterIx]
             counter += 1
@@ -1262,7 +1265,7 @@ class SparseMCH(Solver):
                 errflag = 1
                 keepLooping=False
             else:
-                learn_params_kwargs, self.model.sampleSize = custom_convergence_f(counter)
+                learn_params_kwargs, sampleSize = custom_convergence_f(counter)
         
         self.multipliers = self._multipliers.copy()
         if full_output:
-- 
2.43.0


From 4f34c50840c5892452dd2ea0f8af368d320804a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:05 +0000
Subject: [PATCH 19/23] fix: sparse solvers failed when a single parameter is
 fitted

---
 coniii/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index 21ed9ff..ea8d8e3 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -120,7 +120,7 @@ class Solver():
         for i, ix in enumerate(self.parameterIx[1:]):
             insertionIx.extend([i+1] * (ix-self.parameterIx[i]-1))
         if self.parameterIx[-1]<(nParams - 1):
-            insertionIx.extend([i+2] * (nParams - self.parameterIx[-1] - 1))
+            insertionIx.extend([len(self.parameterIx)] * (nParams - self.parameterIx[-1] - 1))
 
         #assert np.insert(initial_guess, insertionIx, 0).size==nParams
         self.insertionIx = insertionIx
-- 
2.43.0


From 6d1ee1a4411e464056f0eb9af0b92a13c119d847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:27 +0000
Subject: [PATCH 20/23] fix: RegularizedMeanField sampled and returned models
 other than the mean-field one (0/1 parameters and statistics used in the -1/1
 basis, interactions and fields doubled)

---
 coniii/solvers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index ea8d8e3..b8b1bbe 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -2671,10 +2671,10 @@ class RegularizedMeanField(Solver):
            if min_covariance:
                J = tildeJ2normalJ(J, empiricalFreqs)
            burninDefault = 100*self.n
-           J = J + J.T
-           self.model.set_multipliers(np.concatenate([J.diagonal(), squareform(zero_diag(-J))]))
+           J = (J + J.T)/2
+           self.model.set_multipliers(convert_params(-J.diagonal(), squareform(zero_diag(-J))*2, '11', concat=True))
            self.model.generate_sample(burninDefault, 1)
-           return self.model.sample
+           return (self.model.sample + 1)/2
 
         # adapted from findJMatrixBruteForce_CoocMat
         def func(meanFieldGammaPrime):
@@ -2724,7 +2724,7 @@ class RegularizedMeanField(Solver):
         J = mean_field_ising.JmeanField(coocMatData,
                                         meanFieldPriorLmbda=meanFieldPriorLmbdaMin,
                                         numSamples=numDataSamples)
-        J = J + J.T
+        J = (J + J.T)/2
 
         # convert J to {-1,1} basis
         h = -J.diagonal()
-- 
2.43.0


From 307fa97e1dce0a69ef376738e08a7ca4ef092b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 21/23] fix: Solver.logp failed for a single state

---
 coniii/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coniii/solvers.py b/coniii/solvers.py
index b8b1bbe..f77db10 100755
--- a/coniii/solvers.py
+++ b/coniii/solvers.py
@@ -162,7 +162,7 @@ class Solver():
             assert isinstance(sample, np.ndarray)
             assert set(np.unique(sample)) <= frozenset((-1,0,1))
         if sample.ndim==1:
-            sample = s[None,:]
+            sample = sample[None,:]
 
         # only iterate over unique states in sample
         us, uix = np.unique(sample, axis=0, return_inverse=True)
-- 
2.43.0


From 9b8285e537d858ce0235cd8dc2fcc83fe322c6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:02 +0000
Subject: [PATCH 22/23] fix: equation files can be generated by several
 processes or threads at once

A directory created meanwhile by another process raised FileExistsError, and two threads of one
process shared the temporary file name.
---
 coniii/enumerate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coniii/enumerate.py b/coniii/enumerate.py
index 7431657..7de790e 100755
--- a/coniii/enumerate.py
+++ b/coniii/enumerate.py
@@ -36,6 +36,7 @@ from io import StringIO
 from itertools import combinations
 import os
 import sys
+import threading
 np.set_printoptions(threshold=sys.maxsize)
 
 
@@ -154,8 +155,7 @@ def write_py(n, sym, contraintTermsIx, signs, expterms, Z,
 
     fname = 'ising_eqn/ising_eqn_%d%s.py'%(n,suffix)
     print("Generating file ./%s"%fname)
-    if not os.path.isdir('./ising_eqn'):
-        os.makedirs('./ising_eqn')
+    os.makedirs('./ising_eqn', exist_ok=True)
     f = StringIO()
     # insert license
     try:
@@ -263,7 +263,7 @@ def write_file(fname, text):
     text : str
     """
 
-    tmpname = '%s.tmp%d'%(fname, os.getpid())
+    tmpname = '%s.tmp%d-%d'%(fname, os.getpid(), threading.get_ident())
     try:
         with open(tmpname, 'w') as f:
             f.write(text)
-- 
2.43.0


From d2eb10e1c718173efd986ff0729c487defdecb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:02 +0000
Subject: [PATCH 23/23] fix: Potts equation files for more than ten states

xpotts_states() labels states beyond 9 by letters, which the writer could not read (ValueError).
---
 coniii/enumerate_potts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coniii/enumerate_potts.py b/coniii/enumerate_potts.py
index 00e4248..813a7a5 100644
--- a/coniii/enumerate_potts.py
+++ b/coniii/enumerate_potts.py
@@ -148,7 +148,7 @@ class PythonFileWriterBase():
             for i in range(self.n):
                 siCoeffs = []
                 for s in allStates:
-                    if s[i]==str(k):
+                    if int(s[i], 36)==k:
                         siCoeffs.append('1')
                     else:
                         siCoeffs.append('0')
@@ -218,7 +218,7 @@ class SpecificFieldGenericCouplings(PythonFileWriterBase):
             for s in xpotts_states(n, k):
                 term = ''
                 for i in range(n):
-                    term += 'h[%d]+'%(int(s[i])*n+i)
+                    term += 'h[%d]+'%(int(s[i], 36)*n+i)
 
                 for counter,(i,j) in enumerate(combinations(range(n),2)):
                     if s[i]==s[j]:
-- 
2.43.0

