From a0164ef9a1746f9913a9b5a61483c6cc9b66b3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 01/48] fix: auto_coverages.py is not valid Python (element
 types quoted twice)

---
 scaks/solvers/kmc_plugins/coverages_analysis.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scaks/solvers/kmc_plugins/coverages_analysis.py b/scaks/solvers/kmc_plugins/coverages_analysis.py
index eff44ab..913df92 100644
--- a/scaks/solvers/kmc_plugins/coverages_analysis.py
+++ b/scaks/solvers/kmc_plugins/coverages_analysis.py
@@ -97,8 +97,7 @@ class CoveragesAnalysis(KMCAnalysisPlugin):
             times_str = "times = []\n"
             steps_str = "steps = []\n"
             coverages_str = "coverages = {}\n".format([[]]*len(self.__possible_types))
-            possible_types_update = [f"'{string}'" for string in self.__possible_types]
-            possible_types_str = get_list_string("possible_types", possible_types_update)
+            possible_types_str = get_list_string("possible_types", self.__possible_types)
             with open(self.__filename, "w") as f:
                 content = (file_header + times_str + steps_str +
                            coverages_str + "\n" + possible_types_str)
-- 
2.43.0


From e8bd916f6a90518ff2d2d984df1b1f761a7ba1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 02/48] fix: kMC frequency data lost if the statistics window
 has no duration

---
 scaks/solvers/kmc_plugins/frequency_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/kmc_plugins/frequency_analysis.py b/scaks/solvers/kmc_plugins/frequency_analysis.py
index c67f300..89e24c1 100644
--- a/scaks/solvers/kmc_plugins/frequency_analysis.py
+++ b/scaks/solvers/kmc_plugins/frequency_analysis.py
@@ -126,7 +126,7 @@ class FrequencyAnalysis(KMCAnalysisPlugin):
         # Calculate rates.
         reaction_rates = {}
         for reaction, occurency in steady_reaction_occurencies.items():
-            rate = occurency/(delta_t*nsites)
+            rate = occurency/(delta_t*nsites) if delta_t > 0.0 else 0.0
             reaction_rates.setdefault(reaction, rate)
         reaction_rates_str = get_dict_string("reaction_rates", reaction_rates)
 
-- 
2.43.0


From 6ec66175c4ce59b4c940c5f3449a32d52773a8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 03/48] fix: every rank truncates auto_frequency.py and
 auto_tofs.py, not only the master

---
 scaks/solvers/kmc_plugins/frequency_analysis.py | 7 ++++---
 scaks/solvers/kmc_plugins/tof_analysis.py       | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/scaks/solvers/kmc_plugins/frequency_analysis.py b/scaks/solvers/kmc_plugins/frequency_analysis.py
index 89e24c1..9fdfa37 100644
--- a/scaks/solvers/kmc_plugins/frequency_analysis.py
+++ b/scaks/solvers/kmc_plugins/frequency_analysis.py
@@ -63,9 +63,10 @@ class FrequencyAnalysis(KMCAnalysisPlugin):
         # Create statistic data file.
         variables_str = ("times = []\npicked_indices = []\n" +
                          "process_occurencies = []\n")
-        with open(self.__filename, "w") as f:
-            content = file_header + variables_str
-            f.write(content)
+        if mpi.is_master:
+            with open(self.__filename, "w") as f:
+                content = file_header + variables_str
+                f.write(content)
 
     def registerStep(self, step, time, configuration, interactions):
         # Append picked index.
diff --git a/scaks/solvers/kmc_plugins/tof_analysis.py b/scaks/solvers/kmc_plugins/tof_analysis.py
index ec2e687..6b20b9d 100644
--- a/scaks/solvers/kmc_plugins/tof_analysis.py
+++ b/scaks/solvers/kmc_plugins/tof_analysis.py
@@ -78,9 +78,10 @@ class TOFAnalysis(KMCAnalysisPlugin):
         process_mapping = self.__kmc_model.process_mapping
         process_mapping_str = get_list_string("processes", process_mapping, 1)
 
-        with open(self.__filename, "w") as f:
-            content = file_header + variables_str + process_mapping_str
-            f.write(content)
+        if mpi.is_master:
+            with open(self.__filename, "w") as f:
+                content = file_header + variables_str + process_mapping_str
+                f.write(content)
 
     def registerStep(self, step, time, configuration, interactions):
         # Get picked process index.
-- 
2.43.0


From cf7bb399f287404a98bb47f9de6f57c160e18ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 04/48] fix: first instantaneous TOF window starts at 0.0
 instead of the start time

---
 scaks/solvers/kmc_plugins/tof_analysis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scaks/solvers/kmc_plugins/tof_analysis.py b/scaks/solvers/kmc_plugins/tof_analysis.py
index 6b20b9d..b30cd76 100644
--- a/scaks/solvers/kmc_plugins/tof_analysis.py
+++ b/scaks/solvers/kmc_plugins/tof_analysis.py
@@ -73,6 +73,9 @@ class TOFAnalysis(KMCAnalysisPlugin):
         # }}}
 
     def setup(self, step, time, configuration, interactions):
+        # The first window opens when the simulation starts.
+        self.__start_time = time
+
         # Create statistic data file.
         variables_str = ("times = []\ntofs = []\n")
         process_mapping = self.__kmc_model.process_mapping
-- 
2.43.0


From 4b583f954f181d28550a80b7e84c79a6a434ee36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 05/48] fix: process mapping lists a reverse process that a
 redistribution process has not

---
 scaks/solvers/kmc_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/kmc_solver.py b/scaks/solvers/kmc_solver.py
index 81d0552..0f2af98 100644
--- a/scaks/solvers/kmc_solver.py
+++ b/scaks/solvers/kmc_solver.py
@@ -209,7 +209,7 @@ class KMCSolver(SolverBase):
                     processes.append(rprocess)
 
                 # Add process reaction mapping.
-                if not fast:
+                if not fast and not redist:
                     process_mapping = "{}(<-)".format(process_dict["reaction"])
                     self.__process_mapping.append(process_mapping)
 
-- 
2.43.0


From f976df789850c7677feb341e93246674a0c6bf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 06/48] fix: process mapping grows each time the processes are
 generated

---
 scaks/solvers/kmc_solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scaks/solvers/kmc_solver.py b/scaks/solvers/kmc_solver.py
index 0f2af98..3002247 100644
--- a/scaks/solvers/kmc_solver.py
+++ b/scaks/solvers/kmc_solver.py
@@ -109,6 +109,7 @@ class KMCSolver(SolverBase):
 
     def get_processes(self):
         all_processes = []
+        self.__process_mapping = []
         process_dicts = self._owner.process_dicts
         for process_dict in process_dicts:
             processes = self.__get_single_process(process_dict)
-- 
2.43.0


From 8e39312a04258f262a6f70b93a5dbdd6eab6d283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 07/48] fix: event analysis divides by zero when no process is
 possible any more

---
 scaks/solvers/kmc_plugins/event_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/kmc_plugins/event_analysis.py b/scaks/solvers/kmc_plugins/event_analysis.py
index d748107..6000d24 100644
--- a/scaks/solvers/kmc_plugins/event_analysis.py
+++ b/scaks/solvers/kmc_plugins/event_analysis.py
@@ -156,7 +156,8 @@ class EventAnalysis(KMCAnalysisPlugin):
 
         # Get probability table.
         total_rates = [n*r for n, r in zip(process_available_sites, process_rates)]
-        probabilities = [r/sum(total_rates) for r in total_rates]
+        sum_rates = sum(total_rates)
+        probabilities = [r/sum_rates if sum_rates > 0.0 else 0.0 for r in total_rates]
 
         table = []
         for i, (rxn, n, r, p) in enumerate(zip(reactions,
-- 
2.43.0


From 6c8b127bf9597680262dcbf584fb65fdb8de1225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 08/48] fix: auto_coverages.py raises IndexError if the last
 buffer was just flushed

---
 scaks/solvers/kmc_plugins/coverages_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/kmc_plugins/coverages_analysis.py b/scaks/solvers/kmc_plugins/coverages_analysis.py
index 913df92..98964ee 100644
--- a/scaks/solvers/kmc_plugins/coverages_analysis.py
+++ b/scaks/solvers/kmc_plugins/coverages_analysis.py
@@ -137,7 +137,8 @@ class CoveragesAnalysis(KMCAnalysisPlugin):
         """
         if mpi.is_master:
             # Write to file.
-            self.__flush()
+            if self.__times:
+                self.__flush()
 
             # Info output.
             msg = "coverages informations are written to {}".format(self.__filename)
-- 
2.43.0


From de481a51abef0180a35d71471a1198ef116367aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:37 +0000
Subject: [PATCH 09/48] fix: ranks open their log files before the master has
 created ./log

---
 scaks/models/kinetic_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaks/models/kinetic_model.py b/scaks/models/kinetic_model.py
index e6b7417..ed31472 100644
--- a/scaks/models/kinetic_model.py
+++ b/scaks/models/kinetic_model.py
@@ -193,9 +193,9 @@ class KineticModel(object):
             if 1 == mpi.size:
                 filename = "out.log"
             else:
+                if mpi.is_master:
+                    os.makedirs("./log", exist_ok=True)
                 mpi.barrier()
-                if not os.path.exists("./log") and mpi.is_master:
-                    os.mkdir("./log")
                 filename = "./log/out_{}.log".format(mpi.rank)
 
         # Create handlers.
-- 
2.43.0


From 323c24a7a0b89a657165d532ac35a0f500acf13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:37 +0000
Subject: [PATCH 10/48] fix: ranks wait for ever or find no ./data depending on
 when it is created

---
 scaks/models/micro_kinetic_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scaks/models/micro_kinetic_model.py b/scaks/models/micro_kinetic_model.py
index 1bf97a1..ebfefeb 100644
--- a/scaks/models/micro_kinetic_model.py
+++ b/scaks/models/micro_kinetic_model.py
@@ -127,10 +127,10 @@ class MicroKineticModel(KineticModel):
         super(MicroKineticModel, self).__init__(**kwargs)
 
         # Create data directory if need.
-        if mpi.size != 1 and not os.path.exists("./data"):
-            mpi.barrier()
+        if mpi.size != 1:
             if mpi.is_master:
-                os.mkdir("./data")
+                os.makedirs("./data", exist_ok=True)
+            mpi.barrier()
 
         # Model attributes definitions.
         self.__ss_cvgs = None          # steady-state coverages
-- 
2.43.0


From ee780323d0c2cbedb207de088cb3b69b57cf8e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:37 +0000
Subject: [PATCH 11/48] fix: split_seq loses elements of or rejects sequences
 not divisible by the process number

---
 scaks/mpicommons.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scaks/mpicommons.py b/scaks/mpicommons.py
index fe9f49d..6174b0b 100644
--- a/scaks/mpicommons.py
+++ b/scaks/mpicommons.py
@@ -62,9 +62,9 @@ class MPIUtil(object):
         :param sequence: The data sequence to be divided for parallel processing
         :type sequence: list
         '''
-        starts = [i for i in range(0, len(sequence), len(sequence)//self.size)]
-        ends = starts[1: ] + [len(sequence)]
-        start, end = list(zip(starts, ends))[self.rank]
+        part, residual = divmod(len(sequence), self.size)
+        start = self.rank*part + min(self.rank, residual)
+        end = start + part + (1 if self.rank < residual else 0)
 
         return sequence[start: end]
 
-- 
2.43.0


From 509b4a21fa897a91220c7ecea8b4ef7a3f4097ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:37 +0000
Subject: [PATCH 12/48] fix: log records are written once per model created so
 far

---
 scaks/models/kinetic_model.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scaks/models/kinetic_model.py b/scaks/models/kinetic_model.py
index ed31472..09299d1 100644
--- a/scaks/models/kinetic_model.py
+++ b/scaks/models/kinetic_model.py
@@ -188,6 +188,12 @@ class KineticModel(object):
         logger = logging.getLogger('model')
         logger.setLevel(self.logger_level)
 
+        # Remove handlers installed by models created before in this process.
+        for hdlr in logger.handlers[:]:
+            if getattr(hdlr, "_scaks_handler", False):
+                logger.removeHandler(hdlr)
+                hdlr.close()
+
         # Set log file name.
         if filename is None:
             if 1 == mpi.size:
@@ -210,6 +216,7 @@ class KineticModel(object):
         console_hdlr.setFormatter(formatter)
 
         # Add the handlers to logger.
+        std_hdlr._scaks_handler = console_hdlr._scaks_handler = True
         logger.addHandler(std_hdlr)
         logger.addHandler(console_hdlr)
 
-- 
2.43.0


From 49718059b5a8207086823c6bd38b59d2174b286c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:15 +0000
Subject: [PATCH 13/48] fix: memoized results are shared between models and
 survive loading new energies

---
 scaks/descriptors/descriptors.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/scaks/descriptors/descriptors.py b/scaks/descriptors/descriptors.py
index 694f7e0..cff3e30 100644
--- a/scaks/descriptors/descriptors.py
+++ b/scaks/descriptors/descriptors.py
@@ -365,36 +365,44 @@ def make_hashable(var):
     Function to make a immutable variable hashable.
     """
     if type(var) in (list, tuple):
-        return HashableList(var)
+        return HashableList(map(make_hashable, var))
     elif type(var) is dict:
-        return HashableDict(var)
+        return HashableDict((k, make_hashable(v)) for k, v in var.items())
     else:
         return var
 
 
 class Memoized(object):
     """ Descriptor for returned value memoization.
+
+    The results are kept in the instance, so instances do not share them.
     """
     def __init__(self, func):
         self.func = func
-        self.results = {}
+        self.name = "_memoized_{}".format(func.__name__)
+        code = func.__code__
+        self.arg_names = code.co_varnames[:code.co_argcount]
 
     def __get__(self, instance, cls):
-        self.instance = instance
-        return self
+        if instance is None:
+            return self
+        return lambda **kwargs: self.call(instance, kwargs)
+
+    def call(self, instance, kwargs):
+        results = instance.__dict__.setdefault(self.name, {})
 
-    def __call__(self, **kwargs):
         # Make all arguments hashable.
         key = make_hashable(kwargs)
 
-        # NOTE: if relative_energies is None, then we should
+        # NOTE: if relative_energies is not given, then we should
         #       search the model's relative energies.
-        if "relative_energies" in key and key["relative_energies"] is None:
-            key["relative_energies"] = make_hashable(self.instance._owner.relative_energies)
+        if ("relative_energies" in self.arg_names and
+                not key.get("relative_energies")):
+            key["relative_energies"] = make_hashable(instance._owner.relative_energies)
 
         try:
-            return self.results[key]
+            return results[key]
         except KeyError:
-            self.results[key] = self.func(self.instance, **kwargs)
-            return self.results[key]
+            results[key] = self.func(instance, **kwargs)
+            return results[key]
 
-- 
2.43.0


From f02154add1505fd97717dc23c082b1ae4e54f4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:15 +0000
Subject: [PATCH 14/48] fix: mutable default attributes (e.g. registered
 plugins) are shared between models

---
 scaks/descriptors/descriptors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/descriptors/descriptors.py b/scaks/descriptors/descriptors.py
index cff3e30..a81fb25 100644
--- a/scaks/descriptors/descriptors.py
+++ b/scaks/descriptors/descriptors.py
@@ -30,7 +30,7 @@ class AttrDescriptor(object):
     def __get__(self, instance, owner):
         private_name = "_{}__{}".format(instance.__class__.__name__, self.name)
         if private_name not in instance.__dict__:
-            instance.__dict__[private_name] = self.default
+            instance.__dict__[private_name] = copy.deepcopy(self.default)
         if self.deepcopy:
             return copy.deepcopy(instance.__dict__[private_name])
         else:
-- 
2.43.0


From 96fc8555765c3552525b59a34fc77bd2c374504f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:47 +0000
Subject: [PATCH 15/48] fix: later changes of the set-up data change models
 built from it

---
 scaks/descriptors/descriptors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scaks/descriptors/descriptors.py b/scaks/descriptors/descriptors.py
index a81fb25..6ff6250 100644
--- a/scaks/descriptors/descriptors.py
+++ b/scaks/descriptors/descriptors.py
@@ -46,7 +46,8 @@ class AttrDescriptor(object):
         # Data assignment.
         private_name = "_{}__{}".format(instance.__class__.__name__, self.name)
         if private_name not in instance.__dict__:
-            instance.__dict__[private_name] = value
+            # The data the model is set up with stays in the hands of the user.
+            instance.__dict__[private_name] = copy.deepcopy(value)
         else:
             msg ="Changing value of {}.{} is not allowed".format(instance.__class__.__name__,
                                                                  self.name)
-- 
2.43.0


From 1322066184bf09822a491250cc04d23e8f3fd353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:32 +0000
Subject: [PATCH 16/48] fix: a model calculates with the precision of whichever
 model was built last

---
 scaks/solvers/mean_field_solver.py   | 19 ++++++++++++++++++-
 scaks/solvers/steady_state_solver.py |  8 ++++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/mean_field_solver.py b/scaks/solvers/mean_field_solver.py
index 06f7137..6b69490 100644
--- a/scaks/solvers/mean_field_solver.py
+++ b/scaks/solvers/mean_field_solver.py
@@ -58,7 +58,7 @@ class MeanFieldSolver(SolverBase):
         """
         # Mpmath.
         if self._owner.numerical_representation == 'mpmath':
-            mp.mp.dps = self._owner.decimal_precision
+            self._set_precision()
             self._math = mp  # to do math operations
             self._linalg = mp
             self._mpf = mp.mpf
@@ -104,6 +104,13 @@ class MeanFieldSolver(SolverBase):
 #            self._norm = lambda x: sym.sqrt((x.transpose()*x)[0])  # x is a column vector
         # }}}
 
+    def _set_precision(self):
+        """
+        Protected function to calculate with the precision of this model from
+        now on, any other model may have changed it since it is a global one.
+        """
+        mp.mp.dps = self._owner.decimal_precision
+
     def log_latex(self, latex_tup):
         ''' Append latex strings to 'formulas.tex'
         '''
@@ -167,6 +174,8 @@ class MeanFieldSolver(SolverBase):
     def get_data(self):
         """ Function to get data from model.
         """
+        self._set_precision()
+
         species_definitions = self._owner.species_definitions
 
         # Get gas pressure dict.
@@ -204,6 +213,8 @@ class MeanFieldSolver(SolverBase):
         :rtype: dict
         """
         # {{{
+        self._set_precision()
+
         # Get relative energies.
         if not relative_energies:
             if self._owner.has_relative_energy:
@@ -279,6 +290,8 @@ class MeanFieldSolver(SolverBase):
         :rtype: tuple of float
         """
         # {{{
+        self._set_precision()
+
         free_site_names = self._owner.site_names
         cvg_types = self._owner.adsorbate_names + free_site_names
         kB, h, T = [self._mpf(constant) for constant in
@@ -400,6 +413,8 @@ class MeanFieldSolver(SolverBase):
         :return: Forward rates and reverse rates
         :rtype: tuple of float.
         """
+        self._set_precision()
+
         # Coverages(theta).
         theta = self._cvg_tuple2dict(cvgs_tuple)
 
@@ -470,6 +485,8 @@ class MeanFieldSolver(SolverBase):
         :return: reversibilities
         :rtype: list of float
         """
+        self._set_precision()
+
         if len(rfs) != len(rrs):
             raise ValueError('Different rates number is detected.')
 
diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 4433bab..9437aa4 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -231,6 +231,8 @@ class SteadyStateSolver(MeanFieldSolver):
         :type relative_energies: dict
         """
         # {{{
+        self._set_precision()
+
         # Set theta, kf, kr, p, dtheta_dt
         # Coverages(theta).
         theta = self._cvg_tuple2dict(cvgs_tuple)
@@ -454,6 +456,8 @@ class SteadyStateSolver(MeanFieldSolver):
         :rtype: numpy.matrix
         """
         # {{{
+        self._set_precision()
+
         # Check input parameter.
         dtheta_dt_expressions = self.get_dtheta_dt_expressions()
         m, n = len(dtheta_dt_expressions), len(cvgs_tuple)
@@ -774,6 +778,8 @@ class SteadyStateSolver(MeanFieldSolver):
 
         """
         # {{{
+        self._set_precision()
+
         if c0 is None:
             c0 = self._owner.hybrid_method(self._owner, 0)
         # Intial coverage must have physical meaning.
@@ -859,6 +865,7 @@ class SteadyStateSolver(MeanFieldSolver):
                 # Setup analysis plugins
                 for ap in self._owner.analysis:
                     ap.setup(self._owner, icvg_counter)
+                self._set_precision()
 
                 for x, error, fx in newton_iterator:  # inner loop
                     nt_counter += 1
@@ -926,6 +933,7 @@ class SteadyStateSolver(MeanFieldSolver):
                             ap.register_step(self._owner,
                                              nt_counter,
                                              icvg_counter)
+                    self._set_precision()
 
                 #####    Sub loop for a c0 END    #####
 
-- 
2.43.0


From ca8dbe6984e4082ac196fd38403e31425acc62ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:28 +0000
Subject: [PATCH 17/48] fix: a file in the working directory overrides energy
 data given explicitly

---
 scaks/parsers/relative_energy_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scaks/parsers/relative_energy_parser.py b/scaks/parsers/relative_energy_parser.py
index 376fbe0..8bca37f 100644
--- a/scaks/parsers/relative_energy_parser.py
+++ b/scaks/parsers/relative_energy_parser.py
@@ -80,11 +80,11 @@ class RelativeEnergyParser(ParserBase):
         """
         # {{{
         # Read relative energy data file.
-        if os.path.exists(filename):
+        if energy_data is None:
+            if not os.path.exists(filename):
+                raise IOError("{} is not found.".format(filename))
             globs, energy_data = {}, {}
             exec(open(filename, "rb").read(), globs, energy_data)
-        elif energy_data is None:
-            raise IOError("{} is not found.".format(filename))
 
         # Check data shape.
         self.__chk_data_validity(energy_data)
-- 
2.43.0


From 7b861bdf884bb116f84c0dcb057338111dbcd48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:51 +0000
Subject: [PATCH 18/48] fix: ConstrainedNewton cannot use the step sizes that
 scipy tries

---
 scaks/solvers/rootfinding_iterators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaks/solvers/rootfinding_iterators.py b/scaks/solvers/rootfinding_iterators.py
index 2199205..5f4556e 100644
--- a/scaks/solvers/rootfinding_iterators.py
+++ b/scaks/solvers/rootfinding_iterators.py
@@ -130,10 +130,10 @@ class ConstrainedNewton(RootfindingIterator):
 
             #use golden method to get optimal step size
             def fl(l):
-                x1 = self._matrix(x0) + l*s
+                x1 = self._matrix(x0) + self._mpfloat(l)*s
                 fx = self._matrix(f(tuple(x1)))
                 return norm(fx)
-            l = golden(fl)
+            l = self._mpfloat(golden(fl))
 #            print l
 #            l = mp.mpf('1.0')
             x1 = self._matrix(x0) + l*s  # matrix
-- 
2.43.0


From be6626150d579c46f821f5d21ba0ed7401dcde83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:51 +0000
Subject: [PATCH 19/48] fix: a failed linear solve in ConstrainedNewton ends
 the solution instead of the attempt

---
 scaks/solvers/rootfinding_iterators.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/scaks/solvers/rootfinding_iterators.py b/scaks/solvers/rootfinding_iterators.py
index 5f4556e..fbcad9e 100644
--- a/scaks/solvers/rootfinding_iterators.py
+++ b/scaks/solvers/rootfinding_iterators.py
@@ -119,14 +119,8 @@ class ConstrainedNewton(RootfindingIterator):
             fx = self._matrix(f(x0))
             fxn = -fx
             Jx = J(x0)
-            try:
-                s = self._Axb_solver(Jx, fxn)  # if use gmpy and numpy,
-                #print s                       # lose precision here
-            except ZeroDivisionError:
-                #print 'ZeroDivisionError!'
-                #cancel = True
-                #break
-                raise ValueError("ZeroDivisionError!")
+            # A singular matrix is handled by the caller (as for MDNewton).
+            s = self._Axb_solver(Jx, fxn)  # if use gmpy and numpy, lose precision here
 
             #use golden method to get optimal step size
             def fl(l):
-- 
2.43.0


From c394244740c6aba673a8c5354c5b7c6dbecaffe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:20 +0000
Subject: [PATCH 20/48] fix: rate control leaves the solver and the archive at
 the perturbed state

---
 scaks/__init__.py                    |  5 +++++
 scaks/solvers/steady_state_solver.py | 16 ++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/scaks/__init__.py b/scaks/__init__.py
index bf25d4e..8c53ff2 100644
--- a/scaks/__init__.py
+++ b/scaks/__init__.py
@@ -25,6 +25,8 @@ class ModelShell(object):
     A non-functional parent class to be inherited by
     other tools class of kinetic model.
     """
+    # Flag for whether the results are archived.
+    _archiving = True
 
     def __init__(self, owner):
         self._owner = owner
@@ -40,6 +42,9 @@ class ModelShell(object):
         :param data: value in data dict
         :type data: any
         """
+        if not self._archiving:
+            return
+
         # Update data dict.
         if data_name in self._owner.archived_variables:
             self._archived_data_dict[data_name] = data
diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 9437aa4..4c03607 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -1070,6 +1070,22 @@ class SteadyStateSolver(MeanFieldSolver):
         :param relative_energies: Relative energies for calculation, if not provided, use model's relative energies, default is None
         :type relative_energies: dict
         """
+        # The perturbed steady states must neither be archived nor replace
+        # the converged state of the solver.
+        names = ("_coverages", "_error", "_good_guess")
+        state = {name: getattr(self, name) for name in names if hasattr(self, name)}
+        self._archiving = False
+        try:
+            return self.__single_XRC(gas_name, epsilon, relative_energies)
+        finally:
+            self._archiving = True
+            for name, value in state.items():
+                setattr(self, name, value)
+
+    def __single_XRC(self, gas_name, epsilon, relative_energies):
+        """
+        Private helper function to calculate XRC for one gas species.
+        """
         # {{{
         # Get correct relative energies.
         if relative_energies is None:
-- 
2.43.0


From 060396c4594f84fff9fe521c4b6e05ab94c46be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:11 +0000
Subject: [PATCH 21/48] fix: ConstrainedNewton gives scipy values it cannot
 compare

---
 scaks/solvers/rootfinding_iterators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/rootfinding_iterators.py b/scaks/solvers/rootfinding_iterators.py
index fbcad9e..0471653 100644
--- a/scaks/solvers/rootfinding_iterators.py
+++ b/scaks/solvers/rootfinding_iterators.py
@@ -126,7 +126,8 @@ class ConstrainedNewton(RootfindingIterator):
             def fl(l):
                 x1 = self._matrix(x0) + self._mpfloat(l)*s
                 fx = self._matrix(f(tuple(x1)))
-                return norm(fx)
+                # scipy compares the values with nan, so a float is needed.
+                return float(norm(fx))
             l = self._mpfloat(golden(fl))
 #            print l
 #            l = mp.mpf('1.0')
-- 
2.43.0


From 5d870000f1030ebad5305abbdd2e8f9d228ea3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:22 +0000
Subject: [PATCH 22/48] fix: run without starting coverages fails when there is
 no archive yet

---
 scaks/models/micro_kinetic_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scaks/models/micro_kinetic_model.py b/scaks/models/micro_kinetic_model.py
index ebfefeb..a7416a7 100644
--- a/scaks/models/micro_kinetic_model.py
+++ b/scaks/models/micro_kinetic_model.py
@@ -233,6 +233,7 @@ class MicroKineticModel(KineticModel):
         else:
             if self.log_allowed:
                 self._logger.info('Use model\'s hybrid method to guess initial coverages')
+            init_cvgs = self.hybrid_method(self, 0)
 
         # Solve steady state coverages.
         # Use scipy.optimize.fsolve or not (fast but low-precision).
-- 
2.43.0


From e81eb11a1a3b060b0befd3c4c32b0d4fbc835376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:22 +0000
Subject: [PATCH 23/48] fix: restart never finds the archived coverages and
 integrates without the given energies

---
 scaks/models/micro_kinetic_model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scaks/models/micro_kinetic_model.py b/scaks/models/micro_kinetic_model.py
index a7416a7..dc118e1 100644
--- a/scaks/models/micro_kinetic_model.py
+++ b/scaks/models/micro_kinetic_model.py
@@ -217,8 +217,9 @@ class MicroKineticModel(KineticModel):
         elif os.path.exists(self.data_file):
             with open(self.data_file, 'rb') as f:
                 data = pickle.load(f)
-            init_guess = 'steady_state_coverage'
-            if init_guess in data:
+            init_guess = 'steady_state_coverages'
+            if (init_guess in data and
+                    len(data[init_guess]) == len(self.adsorbate_names)):
                 if self.log_allowed:
                     msg = 'use coverages in {} as initial guess...'.format(self.data_file)
                     self._logger.info(msg)
@@ -227,7 +228,7 @@ class MicroKineticModel(KineticModel):
             else:
                 if self.log_allowed:
                     self._logger.info('Do ODE integration to get initial guess...')
-                ode_traj = solver.solve_ode()
+                ode_traj = solver.solve_ode(relative_energies=relative_energies)
                 init_cvgs = ode_traj[-1]
 
         else:
-- 
2.43.0


From 6617132d644ff9887adc7100a279f43f2e252bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:22 +0000
Subject: [PATCH 24/48] fix: archive is lost if the program stops while
 updating it

---
 scaks/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scaks/__init__.py b/scaks/__init__.py
index 8c53ff2..aeb1fd8 100644
--- a/scaks/__init__.py
+++ b/scaks/__init__.py
@@ -1,3 +1,4 @@
+import os
 import time
 import sys
 
@@ -50,8 +51,11 @@ class ModelShell(object):
             self._archived_data_dict[data_name] = data
             # Dump data dict to data file
             if self._archived_data_dict:
-                with open(self._owner.data_file, 'wb') as f:
+                # Replace the file at once, so that it is never incomplete.
+                data_file = self._owner.data_file
+                with open(data_file + '.tmp', 'wb') as f:
                     pickle.dump(self._archived_data_dict, f)
+                os.replace(data_file + '.tmp', data_file)
 
     @staticmethod
     def write2file(filename, line):
-- 
2.43.0


From 108dbcb3b9534fbc10fd294d6b159fae18296d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:22 +0000
Subject: [PATCH 25/48] fix: error of a good initial guess ignores the given
 energies

---
 scaks/solvers/steady_state_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 4c03607..0b0acd6 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -815,7 +815,7 @@ class SteadyStateSolver(MeanFieldSolver):
                     # Get error.
                     fx = self.steady_state_function(c0, relative_energies)  # dtheta/dts
                     norm = self._norm(fx)
-                    resid = self.get_residual(c0)
+                    resid = f_resid(c0)
                     error = min(norm, resid)
                     self._error = error
                     if self._owner.log_allowed:
-- 
2.43.0


From 316e0b271d43e1fea44629adcf38bbf9c1dc1ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:22 +0000
Subject: [PATCH 26/48] fix: run with fsolve has no error to report and
 archives no coverages

---
 scaks/solvers/steady_state_solver.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 0b0acd6..6ae537a 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -757,7 +757,15 @@ class SteadyStateSolver(MeanFieldSolver):
         .. note::
             keys ":obj:`Gaf` and ":obj:`Gar` must be in relative energies dict
         '''
-        return self.coarse_steady_state_cvgs(c0, relative_energies)
+        self._coverages = self.coarse_steady_state_cvgs(c0, relative_energies)
+        self._error = self.get_residual(self._coverages, relative_energies)
+
+        # Archive root, error and initial guess.
+        self.archive_data('steady_state_coverages', self._coverages)
+        self.archive_data('steady_state_error', self._error)
+        self.archive_data('initial_guess', c0)
+
+        return self._coverages
 
     def get_steady_state_cvgs(self, c0=None, single_pt=False, relative_energies=None):
         """ Function to get steady state coverages.
-- 
2.43.0


From cd01269191323641b295c75059c91c3a707fd325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:00 +0000
Subject: [PATCH 27/48] fix: a Jacobian with a column of zeros ends the
 solution instead of the attempt

---
 scaks/solvers/rootfinding_iterators.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/scaks/solvers/rootfinding_iterators.py b/scaks/solvers/rootfinding_iterators.py
index 0471653..45daf1d 100644
--- a/scaks/solvers/rootfinding_iterators.py
+++ b/scaks/solvers/rootfinding_iterators.py
@@ -120,7 +120,11 @@ class ConstrainedNewton(RootfindingIterator):
             fxn = -fx
             Jx = J(x0)
             # A singular matrix is handled by the caller (as for MDNewton).
-            s = self._Axb_solver(Jx, fxn)  # if use gmpy and numpy, lose precision here
+            try:
+                s = self._Axb_solver(Jx, fxn)  # if use gmpy and numpy, lose precision here
+            except TypeError:
+                # mpmath finds no pivot in a column of zeros.
+                raise ZeroDivisionError('matrix is numerically singular')
 
             #use golden method to get optimal step size
             def fl(l):
@@ -232,7 +236,11 @@ class MDNewton(RootfindingIterator):
             # get direction of descent
             fxn = -fx
             Jx = J(x0)
-            s = mp.lu_solve(Jx, fxn)
+            try:
+                s = mp.lu_solve(Jx, fxn)
+            except TypeError:
+                # mpmath finds no pivot in a column of zeros.
+                raise ZeroDivisionError('matrix is numerically singular')
             if self.verbose:
                 self.logger.debug('Jx = \n%s', str(Jx))
                 self.logger.debug('s = \n%s', str(s))
-- 
2.43.0


From cdb3c812959c59c05fd567a30b17100da087df24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:31 +0000
Subject: [PATCH 28/48] fix: steady states with more adsorbates than sites are
 accepted

---
 scaks/solvers/steady_state_solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 6ae537a..4f07f48 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -889,7 +889,8 @@ class SteadyStateSolver(MeanFieldSolver):
                     if ((not reach_max_iter) and (error < self._owner.tolerance)):
                         if resid < self._owner.tolerance:
                             # Check whether there is minus value in x
-                            for cvg in x:
+                            # or in the coverages of free sites.
+                            for cvg in self._cvg_tuple2dict(x).values():
                                 if cvg < 0.0:
                                     lt_zero = True  # less than 0
                                     break
-- 
2.43.0


From ba3f30b7b616e0cb1c84b2e35f2cca4d8a58eb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:31 +0000
Subject: [PATCH 29/48] fix: new initial guesses may be unphysical

---
 scaks/solvers/steady_state_solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 4f07f48..920bb4a 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -956,6 +956,7 @@ class SteadyStateSolver(MeanFieldSolver):
                         break
                     else:
                         c0 = self._owner.hybrid_method(self._owner, icvg_counter)
+                        c0 = self.__constrain_coverages(c0)
                         icvg_counter += 1
             # }}}
             except ZeroDivisionError:
@@ -967,6 +968,7 @@ class SteadyStateSolver(MeanFieldSolver):
                     break
                 else:
                     c0 = self._owner.hybrid_method(self._owner, icvg_counter)
+                    c0 = self.__constrain_coverages(c0)
                     icvg_counter += 1
             finally:
                 for ap in self._owner.analysis:
-- 
2.43.0


From d636527ead39337170acd881f4c1a1f10db11a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:55 +0000
Subject: [PATCH 30/48] fix: wrong sign in the Jacobian for terms with an
 adsorbate and its free site

---
 scaks/solvers/steady_state_solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 920bb4a..3763653 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -429,6 +429,10 @@ class SteadyStateSolver(MeanFieldSolver):
                                                                 term_expression)
                          for term_expression in terms]
 
+        # The sign before a term is that of the whole sum (product rule).
+        derived_terms = ['({})'.format(term) if ' + ' in term else term
+                         for term in derived_terms]
+
         # Combine 2 lists.
         derived_poly_list = []
         for combination in zip(derived_terms, operators):
-- 
2.43.0


From f6e42cc83fd689ac2455a02e6ebdd5ced746cdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 31/48] fix: change rates are wrong for an adsorbate on both
 sides or listed twice

---
 scaks/solvers/mean_field_solver.py   | 11 ++++++++++-
 scaks/solvers/steady_state_solver.py | 23 +++++++++--------------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/scaks/solvers/mean_field_solver.py b/scaks/solvers/mean_field_solver.py
index 6b69490..fb6f284 100644
--- a/scaks/solvers/mean_field_solver.py
+++ b/scaks/solvers/mean_field_solver.py
@@ -344,9 +344,18 @@ class MeanFieldSolver(SolverBase):
             if direction == 'r':
                 rate_str = 'kr[' + str(idx) + ']'
 
+            # A species may be listed several times, e.g. 'OH_s + OH_s'.
+            stoichiometries = {}
+            for formula in formula_list:
+                name = formula.species_site()
+                stoichiometries[name] = (stoichiometries.get(name, 0) +
+                                         formula.stoichiometry())
+
             for formula in formula_list:
-                stoichiometry = formula.stoichiometry()
                 species_name = formula.species_site()
+                if species_name not in stoichiometries:
+                    continue
+                stoichiometry = stoichiometries.pop(species_name)
                 #get type of species
                 if '*' in species_name:
                     if stoichiometry == 1:
diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 3763653..692178b 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -133,28 +133,23 @@ class SteadyStateSolver(MeanFieldSolver):
         rxn_equation = RxnEquation(rxn_expression)
         elementary_rxn_list = rxn_equation.to_formula_list()
 
-        # Find formula list index.
-        for formula_list in elementary_rxn_list:
-            for formula in formula_list:
-                stoichiometry = formula.stoichiometry()
-                current_species = formula.species_site()
-                if current_species == adsorbate_name:
-                    break
+        # Number of adsorbates consumed by the reaction (it may be on both sides).
+        def count(formula_list):
+            return sum(formula.stoichiometry() for formula in formula_list
+                       if formula.species_site() == adsorbate_name)
 
-            if current_species == adsorbate_name:
-                # Get state idx to get direction info.
-                state_idx = elementary_rxn_list.index(formula_list)
-                break
+        consumed = count(elementary_rxn_list[0]) - count(elementary_rxn_list[-1])
+        stoichiometry = abs(consumed)
 
-        # If adsorbate name not in reaction, stop.
-        if current_species != adsorbate_name:
+        # If adsorbate coverage is not changed by the reaction, stop.
+        if consumed == 0:
             return
 
         # Get rate expression of the elementary equation.
         f_expr, r_expr = self.get_elementary_rate_expression(rxn_expression)
 
         # Adsorbate is consumed
-        if state_idx == 0:
+        if consumed > 0:
             if stoichiometry == 1:
                 increase_rate, decrease_rate = r_expr, f_expr
             else:
-- 
2.43.0


From 380713b0e356744589ba133345d3bf3e34d2e581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:23 +0000
Subject: [PATCH 32/48] fix: plugins are finalized without set-up or with the
 number of the next attempt

---
 scaks/solvers/steady_state_solver.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 692178b..fdea113 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -807,6 +807,7 @@ class SteadyStateSolver(MeanFieldSolver):
 
         converged = False  # Flag for convergence.
         while not cancel:  # outer loop
+            session = None  # counter with which the plugins have been set up
             try:
             # {{{
                 # Good initial coverages.
@@ -870,6 +871,7 @@ class SteadyStateSolver(MeanFieldSolver):
                     self.__logger.info('-'*60)
 
                 # Setup analysis plugins
+                session = icvg_counter
                 for ap in self._owner.analysis:
                     ap.setup(self._owner, icvg_counter)
                 self._set_precision()
@@ -970,8 +972,10 @@ class SteadyStateSolver(MeanFieldSolver):
                     c0 = self.__constrain_coverages(c0)
                     icvg_counter += 1
             finally:
-                for ap in self._owner.analysis:
-                    ap.finalize(self._owner, icvg_counter)
+                # The counter may belong to the next initial guess already.
+                if session is not None:
+                    for ap in self._owner.analysis:
+                        ap.finalize(self._owner, session)
 
         ##############    main loop end   #################
 
-- 
2.43.0


From 96550cd4f8536c60856ff64c1f88d29ef90a60d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:23 +0000
Subject: [PATCH 33/48] fix: analysis plugins lose the methods they inherit

---
 scaks/plugins/metaclasses.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/scaks/plugins/metaclasses.py b/scaks/plugins/metaclasses.py
index 35d470f..ec2d456 100644
--- a/scaks/plugins/metaclasses.py
+++ b/scaks/plugins/metaclasses.py
@@ -13,13 +13,24 @@ class AnalysisMeta(type):
             if type(interval) is not int or interval <= 0:
                 raise TypeError('analysis interval must be a positive integer')
 
+        def is_interface(klass):
+            return (isinstance(klass, AnalysisMeta) and
+                    not any(isinstance(base, AnalysisMeta) for base in klass.__bases__))
+
+        def is_inherited(method_name):
+            for base in bases:
+                for klass in base.__mro__:
+                    if method_name in vars(klass):
+                        return not is_interface(klass)
+            return False
+
         for method_name in ['setup', 'register_step', 'finalize']:
             method = attrs.get(method_name, None)
             if method is not None and not callable(method):
                 msg = "{} must be a callable object".format(method)
                 raise AttributeError(msg)
             # Set default interface methods.
-            elif method is None:
+            elif method is None and not is_inherited(method_name):
                 if method_name == 'setup':
                     attrs[method_name] = lambda self, model, outer_counter: None
                 elif method_name == 'register_step':
-- 
2.43.0


From 088561924b935962ebe75e8b38daa3855c2fa4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:12 +0000
Subject: [PATCH 34/48] fix: ODE integration never ends once the integrator
 cannot advance

---
 scaks/solvers/steady_state_solver.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index fdea113..3f79497 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -1326,7 +1326,12 @@ class SteadyStateSolver(MeanFieldSolver):
                 output_allowed = (nstep % self._owner.ode_output_interval == 0)
 
                 # Integrate.
+                t_last = r.t
                 r.integrate(r.t + t_step)
+                if not r.t > t_last:
+                    msg = 'ODE integration stopped, no progress at t = {}'
+                    self.__logger.warning(msg.format(r.t))
+                    break
                 if traj_output and output_allowed:
                     ts.append(r.t)
                     ys.append(r.y.tolist())
-- 
2.43.0


From 99b4524c692606b07e1928148c435e5ad9f73cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 35/48] fix: hybrid ODE integration ignores the energies of the
 call

---
 scaks/models/micro_kinetic_model.py  |  2 +-
 scaks/plugins/hybrid_methods.py      |  3 ++-
 scaks/solvers/steady_state_solver.py | 28 +++++++++++++++++++++++++---
 3 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/scaks/models/micro_kinetic_model.py b/scaks/models/micro_kinetic_model.py
index dc118e1..accfe76 100644
--- a/scaks/models/micro_kinetic_model.py
+++ b/scaks/models/micro_kinetic_model.py
@@ -234,7 +234,7 @@ class MicroKineticModel(KineticModel):
         else:
             if self.log_allowed:
                 self._logger.info('Use model\'s hybrid method to guess initial coverages')
-            init_cvgs = self.hybrid_method(self, 0)
+            init_cvgs = solver.hybrid_guess(0, relative_energies)
 
         # Solve steady state coverages.
         # Use scipy.optimize.fsolve or not (fast but low-precision).
diff --git a/scaks/plugins/hybrid_methods.py b/scaks/plugins/hybrid_methods.py
index 296773a..af46d54 100644
--- a/scaks/plugins/hybrid_methods.py
+++ b/scaks/plugins/hybrid_methods.py
@@ -19,7 +19,8 @@ def ODE_integration(model, N):
 
     new_cvgs = model.solver.solve_ode(time_end=end,
                                       time_span=span,
-                                      initial_cvgs=init_cvgs)[-1]
+                                      initial_cvgs=init_cvgs,
+                                      relative_energies=model.solver.guess_energies)[-1]
 
     if model.log_allowed:
         model.logger.info('generate new initial coverages - success')
diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 3f79497..0b13f48 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -766,6 +766,28 @@ class SteadyStateSolver(MeanFieldSolver):
 
         return self._coverages
 
+    def hybrid_guess(self, n, relative_energies=None):
+        """ Function to get an initial guess from the hybrid method of the model.
+
+        :param n: The count number of the initial guess
+        :type n: int
+
+        :param relative_energies: Relative energies the guess is needed for, they can
+                                  be found in `guess_energies` by the hybrid method.
+        :type relative_energies: dict
+        """
+        self._guess_energies = relative_energies
+        try:
+            return self._owner.hybrid_method(self._owner, n)
+        finally:
+            self._guess_energies = None
+
+    @Property
+    def guess_energies(self):
+        """ Query function for energies that a new initial guess is needed for.
+        """
+        return getattr(self, "_guess_energies", None)
+
     def get_steady_state_cvgs(self, c0=None, single_pt=False, relative_energies=None):
         """ Function to get steady state coverages.
 
@@ -788,7 +810,7 @@ class SteadyStateSolver(MeanFieldSolver):
         self._set_precision()
 
         if c0 is None:
-            c0 = self._owner.hybrid_method(self._owner, 0)
+            c0 = self.hybrid_guess(0, relative_energies)
         # Intial coverage must have physical meaning.
         c0 = self.__constrain_coverages(c0)
         self.__initial_guess = c0
@@ -956,7 +978,7 @@ class SteadyStateSolver(MeanFieldSolver):
                         self.__logger.warning(msg)
                         break
                     else:
-                        c0 = self._owner.hybrid_method(self._owner, icvg_counter)
+                        c0 = self.hybrid_guess(icvg_counter, relative_energies)
                         c0 = self.__constrain_coverages(c0)
                         icvg_counter += 1
             # }}}
@@ -968,7 +990,7 @@ class SteadyStateSolver(MeanFieldSolver):
                     self.__logger.warning(msg)
                     break
                 else:
-                    c0 = self._owner.hybrid_method(self._owner, icvg_counter)
+                    c0 = self.hybrid_guess(icvg_counter, relative_energies)
                     c0 = self.__constrain_coverages(c0)
                     icvg_counter += 1
             finally:
-- 
2.43.0


From 62507b45aeb8ec875ab3a40f3ac527ebb948fef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 36/48] fix: roots with rounding errors below zero are rejected
 for ever

---
 scaks/solvers/steady_state_solver.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 0b13f48..f3978fc 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -920,6 +920,14 @@ class SteadyStateSolver(MeanFieldSolver):
                                 else:
                                     lt_zero = False
                             # check END #
+                            # Negative values can be rounding errors of zeros, then
+                            # the nearest physical coverages are a root as well.
+                            if lt_zero:
+                                x_physical = constraint(x)
+                                if f_resid(x_physical) < self._owner.tolerance:
+                                    x, lt_zero = x_physical, False
+                                    fx = self.steady_state_function(x, relative_energies)
+                                    error = self._norm(fx)
                             if not lt_zero:
                                 if self._owner.log_allowed:
                                     self.__logger.info('%-10s%10d%23.10e%23.10e', 'success',
-- 
2.43.0


From b03328575148316e907256e69b91c813215a08eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 37/48] fix: a failed load of energies or kMC input leaves half
 of the new data

---
 scaks/models/kinetic_model.py           |  1 +
 scaks/parsers/absolute_energy_parser.py | 11 ++++++++++-
 scaks/parsers/kmc_parser.py             |  6 +++---
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/scaks/models/kinetic_model.py b/scaks/models/kinetic_model.py
index 09299d1..d8d42c4 100644
--- a/scaks/models/kinetic_model.py
+++ b/scaks/models/kinetic_model.py
@@ -173,6 +173,7 @@ class KineticModel(object):
         self._has_absolute_energy = False
         self._has_relative_energy = False
         self._relative_energies = {}
+        self._absolute_energies = {}
 
         # Load setup file.
         self._load(self.setup_dict)
diff --git a/scaks/parsers/absolute_energy_parser.py b/scaks/parsers/absolute_energy_parser.py
index 32e81e5..5063db6 100644
--- a/scaks/parsers/absolute_energy_parser.py
+++ b/scaks/parsers/absolute_energy_parser.py
@@ -30,13 +30,22 @@ class AbsoluteEnergyParser(ParserBase):
         globs, locs = {}, {}
         exec(open(filename, "rb").read(), globs, locs)
 
+        # Keep what is loaded to put it back if the new data is invalid.
+        old_energies = self._owner._absolute_energies
+        old_flag = self._owner._has_absolute_energy
+
         self._owner._absolute_energies = locs["absolute_energies"]
 
         # Set flag.
         self._owner._has_absolute_energy = True
 
         # Get relative energies from absolute energies.
-        relative_energies = self._get_relative_from_absolute()
+        try:
+            relative_energies = self._get_relative_from_absolute()
+        except BaseException:
+            self._owner._absolute_energies = old_energies
+            self._owner._has_absolute_energy = old_flag
+            raise
         self._owner._relative_energies = relative_energies
 
         # Set flag.
diff --git a/scaks/parsers/kmc_parser.py b/scaks/parsers/kmc_parser.py
index 5c82707..5785880 100644
--- a/scaks/parsers/kmc_parser.py
+++ b/scaks/parsers/kmc_parser.py
@@ -55,14 +55,14 @@ class KMCParser(RelativeEnergyParser):
         sitesmap_file: The name of sitesmap definition file, default name is "kmc_processes.py".
         :type sitesmap_file: str
         """
-        # Basic parsing.
-        super(KMCParser, self).parse_data(energy_file)
-
         # kMC parsing.
         process_dicts = self.parse_processes(filename=processes_file)
         configuration = self.parse_configuration(filename=configuration_file)
         sitesmap = self.construct_sitesmap(filename=sitesmap_file)
 
+        # Basic parsing, after all other files have been accepted.
+        super(KMCParser, self).parse_data(energy_file)
+
         # Pass data to model.
         for var in ["process_dicts", "configuration", "sitesmap"]:
             model_var = mangled_name(self._owner, var)
-- 
2.43.0


From 6b475cba9ca768dd93532c2ffc0cbfdcc5d44c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 38/48] fix: a failed correction leaves half of the energies
 corrected

---
 scaks/correctors/thermodynamic_corrector.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/scaks/correctors/thermodynamic_corrector.py b/scaks/correctors/thermodynamic_corrector.py
index 1218c6d..9e8e7c7 100644
--- a/scaks/correctors/thermodynamic_corrector.py
+++ b/scaks/correctors/thermodynamic_corrector.py
@@ -256,6 +256,11 @@ class ThermodynamicCorrector(CorrectorBase):
         else:
             raise ValueError("Unknown method: '{}'".format(method))
 
+        # Correct a copy, so that nothing is changed if a correction fails.
+        given_energies = relative_energies
+        relative_energies = dict((key, list(given_energies[key]))
+                                 for key in ("Gaf", "Gar", "dG"))
+
         # Loop over all elementary reactions.
         if self._owner.log_allowed:
             self.__logger.info("Use {} method to correct relative energies".format(method))
@@ -284,7 +289,10 @@ class ThermodynamicCorrector(CorrectorBase):
         if self._owner.log_allowed:
             self.__logger.info("------------------------------------------\n")
 
-        return relative_energies
+        for key in ("Gaf", "Gar", "dG"):
+            given_energies[key][:] = relative_energies[key]
+
+        return given_energies
 
     def __correct_single_relative_energies(self, relative_energies, rxn_idx, correct_func):
         """
-- 
2.43.0


From c3beda13e7877770204e6073cdb0a9a8b1212334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 39/48] fix: kMC processes are not updated when other data is
 loaded

---
 scaks/solvers/kmc_solver.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/scaks/solvers/kmc_solver.py b/scaks/solvers/kmc_solver.py
index 3002247..40dc0bd 100644
--- a/scaks/solvers/kmc_solver.py
+++ b/scaks/solvers/kmc_solver.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 import importlib
 import time
@@ -44,6 +45,10 @@ class KMCSolver(SolverBase):
         # Set process reaction mapping.
         self.__process_mapping = []
 
+        # Processes and the data they have been generated from.
+        self.__processes = None
+        self.__processes_source = None
+
     def run(self,
             scripting=True,
             trajectory_type="lattice"):
@@ -393,11 +398,13 @@ class KMCSolver(SolverBase):
         """
         Query function for processes list.
         """
-        try:
-            return self.__processes
-        except AttributeError:
+        # The processes are generated again if the data they are made of changed.
+        source = (self._owner.process_dicts, self._owner.relative_energies)
+        if self.__processes is None or self.__processes_source != source:
+            self.__processes = None
+            self.__processes_source = copy.deepcopy(source)
             self.__processes = self.get_processes()
-            return self.__processes
+        return self.__processes
 
     @Property
     def process_mapping(self):
-- 
2.43.0


From e3a92dae0f2d83943952e6030377da762c0d7859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:14 +0000
Subject: [PATCH 40/48] fix: the default hybrid method integrates from physical
 coverages

---
 scaks/plugins/hybrid_methods.py      |  4 ++++
 scaks/solvers/steady_state_solver.py | 12 ++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/scaks/plugins/hybrid_methods.py b/scaks/plugins/hybrid_methods.py
index af46d54..49d8507 100644
--- a/scaks/plugins/hybrid_methods.py
+++ b/scaks/plugins/hybrid_methods.py
@@ -16,6 +16,10 @@ def ODE_integration(model, N):
     end = 10
     span = 1e-2
     init_cvgs = model.solver.coverages
+    # Coverages of a failed Newton iteration are not necessarily physical, the
+    # integration from there can end up at the same bad root for ever.
+    if init_cvgs:
+        init_cvgs = model.solver.constrain_coverages(init_cvgs)
 
     new_cvgs = model.solver.solve_ode(time_end=end,
                                       time_span=span,
diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index f3978fc..609779e 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -104,6 +104,18 @@ class SteadyStateSolver(MeanFieldSolver):
         return constrained_cvgs_tuple
         # }}}
 
+    def constrain_coverages(self, cvgs_tuple):
+        """
+        Function to get the nearest physical coverages.
+
+        :param cvgs_tuple: coverages of adsorbates
+        :type cvgs_tuple: tuple of float
+
+        :return: coverages between 0.0 and the total number of the site
+        :rtype: tuple of float
+        """
+        return self.__constrain_coverages(cvgs_tuple)
+
     def get_elementary_dtheta_dt_expression(self,
                                             adsorbate_name,
                                             rxn_expression):
-- 
2.43.0


From b93287196c99c045a9fd236c522be0a5525d3717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:55 +0000
Subject: [PATCH 41/48] fix: rates of steps with several molecules of one gas
 use its pressure to that power

'2CO_g' was looked up in the species definitions with its stoichiometry, so that a kMC model
with such a step could not be run at all (KeyError).
---
 scaks/solvers/solver_base.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/scaks/solvers/solver_base.py b/scaks/solvers/solver_base.py
index 60f8fe9..685d90c 100644
--- a/scaks/solvers/solver_base.py
+++ b/scaks/solvers/solver_base.py
@@ -147,17 +147,18 @@ class SolverBase(ModelShell):
         # Include pressures.
         if include_pressure:
             rxn_equation = RxnEquation(rxn_expression)
-            f = lambda gas: self._owner.species_definitions[gas]["pressure"]
+            f = lambda gas: (self._owner.species_definitions[gas.species_site()]["pressure"] **
+                             gas.stoichiometry())
 
             # Forward rate.
             adsorption_gases = rxn_equation.adsorption_gases()
-            pressures = [f(gas.formula()) for gas in adsorption_gases]
+            pressures = [f(gas) for gas in adsorption_gases]
             p = reduce(mul, pressures) if pressures else 1.0
             rf = p*rf
 
             # Reverse rate.
             desorption_gases = rxn_equation.desorption_gases()
-            pressures = [f(gas.formula()) for gas in desorption_gases]
+            pressures = [f(gas) for gas in desorption_gases]
             p = reduce(mul, pressures) if pressures else 1.0
             rr = p*rr
 
@@ -231,7 +232,7 @@ class SolverBase(ModelShell):
             # Get gas pressure.
             idx = is_types.index("gas")
             formula = istate[idx]
-            gas_name = formula.formula()
+            gas_name = formula.species_site()
             m = ParserBase.get_molecular_mass(formula.species(), absolute=True)
 
             if include_pressure:
@@ -285,7 +286,7 @@ class SolverBase(ModelShell):
             # Get gas pressure.
             idx = fs_types.index("gas")
             formula = fstate[idx]
-            gas_name = formula.formula()
+            gas_name = formula.species_site()
 
             if include_pressure:
                 p = P0*self._owner.species_definitions[gas_name]["pressure"]
-- 
2.43.0


From 5e73e9764a0f056dbb41da5da6277fa8d3b83624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:55 +0000
Subject: [PATCH 42/48] fix: entropy correction warns about a high rotation
 temperature with its own logger

There is no self.logger: AttributeError for H2 below 291 K.
---
 scaks/correctors/thermodynamic_corrector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/correctors/thermodynamic_corrector.py b/scaks/correctors/thermodynamic_corrector.py
index 9e8e7c7..1bda184 100644
--- a/scaks/correctors/thermodynamic_corrector.py
+++ b/scaks/correctors/thermodynamic_corrector.py
@@ -216,7 +216,7 @@ class ThermodynamicCorrector(CorrectorBase):
                 if ratio >= 0.3:
                     msg_template = "T/theta = {:.3e} is larger than 0.3, big error may be expected"
                     msg = msg_template.format(ratio)
-                    self.logger.warning(msg)
+                    self.__logger.warning(msg)
         # Nonlinear molecule.
         elif len(thetas) == 3:
             product = reduce(lambda x, y: x*y, thetas)
-- 
2.43.0


From 13bb2f8d983b2842bf6e64070932e00fc6e34cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:55 +0000
Subject: [PATCH 43/48] fix: correct every molecule of a gas in a step, not one
 or none

With 2CO_g on a side the Shomate method corrected nothing and the entropy method one molecule.
---
 scaks/correctors/thermodynamic_corrector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/correctors/thermodynamic_corrector.py b/scaks/correctors/thermodynamic_corrector.py
index 1bda184..15fda07 100644
--- a/scaks/correctors/thermodynamic_corrector.py
+++ b/scaks/correctors/thermodynamic_corrector.py
@@ -308,7 +308,7 @@ class ThermodynamicCorrector(CorrectorBase):
         for formula_list in formula_lists:
             delta = 0.0
             for formula in formula_list:
-                delta += correct_func(formula.formula())
+                delta += formula.stoichiometry()*correct_func(formula.species_site())
             deltas.append(delta)
 
         self.__change_relative_energies(relative_energies, rxn_idx, deltas)
-- 
2.43.0


From 3cec90ef8109e2beda71ce02d3a5f3968b8a0f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:38 +0000
Subject: [PATCH 44/48] fix: symbolic rates cannot be evaluated for a mechanism
 with liquids

---
 scaks/solvers/mean_field_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/mean_field_solver.py b/scaks/solvers/mean_field_solver.py
index fb6f284..f16403d 100644
--- a/scaks/solvers/mean_field_solver.py
+++ b/scaks/solvers/mean_field_solver.py
@@ -1015,7 +1015,7 @@ class MeanFieldSolver(SolverBase):
         c_dict = {}
         liquid_names = self._owner.liquid_names
         for c_sym, liquid_name in zip(self._c_sym, liquid_names):
-            c_dict.setdefault(c_sym, self._c[liquid_names])
+            c_dict.setdefault(c_sym, self._c[liquid_name])
 
         return c_dict
 
-- 
2.43.0


From 6dab49e2007c6be2bee2475916c45da5f78c161a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:38 +0000
Subject: [PATCH 45/48] fix: symbolic Jacobian exists for two adsorbates only

---
 scaks/solvers/steady_state_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 609779e..f90a8a5 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -639,7 +639,7 @@ class SteadyStateSolver(MeanFieldSolver):
 
         # Allocate memories for jacobian matrix.
         m = n = len(dtheta_dt_syms)
-        sym_jacobian = [[0.0]*m, [0.0]*n]
+        sym_jacobian = [[0.0]*n for _ in range(m)]
 
         # dtheta/dt (row).
         for i in range(m):
@@ -669,7 +669,7 @@ class SteadyStateSolver(MeanFieldSolver):
         sym_jacobian = self.analytical_jacobian_sym()
 
         m = n = len(sym_jacobian)
-        num_jacobian = [[0.0]*m, [0.0]*n]
+        num_jacobian = [[0.0]*n for _ in range(m)]
 
         for i in range(m):
             for j in range(n):
-- 
2.43.0


From 1739580301298942a47b8ee54de61fb520997ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:38 +0000
Subject: [PATCH 46/48] fix: change rate expressions cannot be written as LaTeX

---
 scaks/solvers/steady_state_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index f90a8a5..b934f93 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -607,7 +607,7 @@ class SteadyStateSolver(MeanFieldSolver):
 
         # Log it.
         if log_latex:
-            self.log_latex(self.dtheta_dt_latex)
+            self.log_latex(dtheta_dt_latexs)
 
         return dtheta_dt_syms
 
-- 
2.43.0


From 02a8bc6228cbbffc0d7d0d1cb280079d4346a51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:40 +0000
Subject: [PATCH 47/48] fix: every rank of a parallel job writes its own ODE
 trajectory

---
 scaks/solvers/steady_state_solver.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index b934f93..087ac41 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -10,6 +10,7 @@ from scipy.optimize import fsolve
 from .. import file_header
 from ..descriptors.descriptors import Memoized, Property
 from ..errors.error import *
+from ..mpicommons import mpi
 from ..utilities.format_utilities import get_list_string
 from ..parsers.rxn_parser import *
 from .rootfinding_iterators import *
@@ -1356,7 +1357,7 @@ class SteadyStateSolver(MeanFieldSolver):
             # Write file header.
             if traj_output:
                 flush_counter = 0
-                with open("auto_ode_coverages.py", "w") as f:
+                with open(self.ode_trajectory_file, "w") as f:
                     time_str = "times = []\n\n"
                     coverages_str = "coverages = []\n\n"
                     f.write(file_header + time_str + coverages_str)
@@ -1406,7 +1407,7 @@ class SteadyStateSolver(MeanFieldSolver):
 
             if self._owner.log_allowed:
                 self.__logger.info('ODE integration trajectory is written' +
-                                   ' to auto_ode_coverages.py.')
+                                   ' to {}.'.format(self.ode_trajectory_file))
 
         return last_time, last_coverages
         # }}}
@@ -1434,7 +1435,7 @@ class SteadyStateSolver(MeanFieldSolver):
         content = comment + times_str + coverages_str
 
         # Flush to file.
-        with open("auto_ode_coverages.py", "a") as f:
+        with open(self.ode_trajectory_file, "a") as f:
             f.write(content)
 
         # Free buffer.
@@ -1444,6 +1445,15 @@ class SteadyStateSolver(MeanFieldSolver):
         return times, coverages
         # }}}
 
+    @Property
+    def ode_trajectory_file(self):
+        """ Get the name of file where ODE integration trajectory is written.
+        """
+        if mpi.size == 1:
+            return "auto_ode_coverages.py"
+        else:
+            return "./data/auto_ode_coverages_{}.py".format(mpi.rank)
+
     @Property
     def error(self):
         """ Query function for converged error.
-- 
2.43.0


From d7f664d1d67c538faecd73c96b23ac25bf96e1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:35 +0000
Subject: [PATCH 48/48] fix: a plugin that fails in set-up or finalization
 upsets the sessions of the others

---
 scaks/solvers/steady_state_solver.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/scaks/solvers/steady_state_solver.py b/scaks/solvers/steady_state_solver.py
index 087ac41..ef4f2fb 100644
--- a/scaks/solvers/steady_state_solver.py
+++ b/scaks/solvers/steady_state_solver.py
@@ -842,7 +842,7 @@ class SteadyStateSolver(MeanFieldSolver):
 
         converged = False  # Flag for convergence.
         while not cancel:  # outer loop
-            session = None  # counter with which the plugins have been set up
+            sessions = []  # plugins that have been set up, and the counters they got
             try:
             # {{{
                 # Good initial coverages.
@@ -906,8 +906,8 @@ class SteadyStateSolver(MeanFieldSolver):
                     self.__logger.info('-'*60)
 
                 # Setup analysis plugins
-                session = icvg_counter
                 for ap in self._owner.analysis:
+                    sessions.append((ap, icvg_counter))
                     ap.setup(self._owner, icvg_counter)
                 self._set_precision()
 
@@ -1016,9 +1016,7 @@ class SteadyStateSolver(MeanFieldSolver):
                     icvg_counter += 1
             finally:
                 # The counter may belong to the next initial guess already.
-                if session is not None:
-                    for ap in self._owner.analysis:
-                        ap.finalize(self._owner, session)
+                self.__finalize_plugins(sessions)
 
         ##############    main loop end   #################
 
@@ -1034,6 +1032,18 @@ class SteadyStateSolver(MeanFieldSolver):
             return self._coverages
     # }}}
 
+    def __finalize_plugins(self, sessions):
+        """
+        Private helper function to finalize all analysis plugins that have been set up,
+        even if the finalization of one of them fails.
+        """
+        if sessions:
+            (plugin, counter), others = sessions[0], sessions[1:]
+            try:
+                plugin.finalize(self._owner, counter)
+            finally:
+                self.__finalize_plugins(others)
+
     def __log_sscvg(self, cvgs_tuple, ads_names):
         """
         Private helper function to log steady state coverage of every species.
-- 
2.43.0

