From fd178d0419f9ea2a6ee59b0d49f423f3dd2bdb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 01/42] fix: save_npy buffers a copy of each frame

The buffer kept a reference to the array that the simulation updates in
place, so all frames buffered between two dumps were saved with the values
of the last one.
---
 crowddynamics/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index 986124b..c4c5b90 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -36,7 +36,8 @@ def save_npy(directory, basename):
     index = 0
     while True:
         data = yield  # numpy.ndarray
-        buffer.append(data)
+        # Copy, because the caller updates its array in place between sends
+        buffer.append(np.copy(data))
 
         dump = yield  # bool
         if dump:
-- 
2.43.0


From 03528262b03c00c2d91c6a125dfa740d1ec79336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 02/42] fix: find_npy_files matches exactly the files of the
 series

str.lstrip and str.rstrip strip sets of characters, so indices were wrong
for basenames containing digits, files of other series that share the
prefix were included, and the output of concat-npy raised ValueError.
---
 crowddynamics/io.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index c4c5b90..0a3fb88 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -6,6 +6,7 @@ Data flow ::
 
 """
 import os
+import re
 from collections import Iterable, Mapping
 from io import StringIO
 import csv
@@ -56,11 +57,12 @@ def find_npy_files(directory, basename):
     Yields:
         (int, numpy.ndarray): Tuple containing (index, data)
     """
+    pattern = re.compile(re.escape(basename) + r'_([0-9]+)\.npy')
     for root, dirs, files in os.walk(directory):
         for file in files:
-            if file.startswith(basename) and file.endswith('.npy'):
-                index = int(file.lstrip(basename + '_').rstrip('.npy'))
-                yield index, os.path.join(root, file)
+            match = pattern.fullmatch(file)
+            if match:
+                yield int(match.group(1)), os.path.join(root, file)
 
 
 def load_npy(directory, basename):
-- 
2.43.0


From 6f20ed2a748a8ff62d6af5fdbb043f47daf2c590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:59 +0000
Subject: [PATCH 03/42] fix: save_npy continues an existing series

A recording that was restarted in the same directory began again from
index 0 and overwrote the data files of the earlier session. Formatting
only the filename also allows braces in the directory name.
---
 crowddynamics/io.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index 0a3fb88..5907901 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -32,9 +32,8 @@ def save_npy(directory, basename):
         >>> storage.send(data)
         >>> storage.send(True)  # True dumps data into file
     """
-    filepath = os.path.join(directory, basename + '_{index}.npy')
     buffer = []
-    index = 0
+    index = next_npy_index(directory, basename)
     while True:
         data = yield  # numpy.ndarray
         # Copy, because the caller updates its array in place between sends
@@ -42,11 +41,24 @@ def save_npy(directory, basename):
 
         dump = yield  # bool
         if dump:
-            np.save(filepath.format(index=index), np.vstack(buffer))
+            filename = '{}_{}.npy'.format(basename, index)
+            np.save(os.path.join(directory, filename), np.vstack(buffer))
             buffer.clear()
             index += 1
 
 
+def npy_pattern(basename):
+    """Regular expression for the filenames of a series of data files"""
+    return re.compile(re.escape(basename) + r'_([0-9]+)\.npy')
+
+
+def next_npy_index(directory, basename):
+    """First index that is greater than indices of the existing data files"""
+    files = os.listdir(directory) if os.path.isdir(directory) else []
+    matches = map(npy_pattern(basename).fullmatch, files)
+    return max((int(m.group(1)) + 1 for m in matches if m), default=0)
+
+
 def find_npy_files(directory, basename):
     """Find data files
 
@@ -57,7 +69,7 @@ def find_npy_files(directory, basename):
     Yields:
         (int, numpy.ndarray): Tuple containing (index, data)
     """
-    pattern = re.compile(re.escape(basename) + r'_([0-9]+)\.npy')
+    pattern = npy_pattern(basename)
     for root, dirs, files in os.walk(directory):
         for file in files:
             match = pattern.fullmatch(file)
-- 
2.43.0


From cbd0c6e24f980a8788970ade02ead256722434c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:59 +0000
Subject: [PATCH 04/42] fix: save_npy never leaves a partially written data
 file

If the process died or the disk filled up in the middle of a dump, the
torn file made load_npy and load_npy_concatenated fail for the whole
series, including the frames that were saved before.
---
 crowddynamics/io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index 5907901..7f57a99 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -42,7 +42,10 @@ def save_npy(directory, basename):
         dump = yield  # bool
         if dump:
             filename = '{}_{}.npy'.format(basename, index)
-            np.save(os.path.join(directory, filename), np.vstack(buffer))
+            filepath = os.path.join(directory, filename)
+            with open(filepath + '.tmp', 'wb') as fp:
+                np.save(fp, np.vstack(buffer))
+            os.replace(filepath + '.tmp', filepath)
             buffer.clear()
             index += 1
 
-- 
2.43.0


From 4b34603d53f06f3f33e67711876e392efe4f4920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:59 +0000
Subject: [PATCH 05/42] fix: geometries saved into json can be loaded

Mappings are iterable, therefore load_geometry_json tried to load the keys
of the GeoJSON mapping of every single geometry, and multipart geometries
were saved as list of their parts.
---
 crowddynamics/io.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index 7f57a99..35f5f5a 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -7,7 +7,7 @@ Data flow ::
 """
 import os
 import re
-from collections import Iterable, Mapping
+from collections import Mapping
 from io import StringIO
 import csv
 import json
@@ -165,23 +165,26 @@ def save_csv(directory, basename):
 def geometry_mapping(geom):
     from shapely.geometry import mapping
 
-    if isinstance(geom, Iterable):
-        return [mapping(geo) for geo in geom]
+    if geom is None or hasattr(geom, '__geo_interface__'):
+        # Multipart geometries are iterable, but they are single geometries
+        return mapping(geom) if geom else geom
     elif isinstance(geom, Mapping):
         return {name: mapping(geo) for name, geo in geom.items()}
     else:
-        return mapping(geom) if geom else geom
+        return [mapping(geo) for geo in geom]
 
 
 def geometry_shape(geom):
     from shapely.geometry import shape
 
-    if isinstance(geom, Iterable):
-        return [shape(geo) for geo in geom]
+    if geom is None:
+        return geom
     elif isinstance(geom, Mapping):
+        if isinstance(geom.get('type'), str):
+            return shape(geom)
         return {name: shape(geo) for name, geo in geom.items()}
     else:
-        return shape(geom) if geom else geom
+        return [shape(geo) for geo in geom]
 
 
 def save_geometry_json(filename, geometries):
-- 
2.43.0


From b54d3185b191bb80033fb7019a0e4c8aae8f7709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:59 +0000
Subject: [PATCH 06/42] fix: save_geometry_json replaces the file

Appending a second object made the file invalid json.
---
 crowddynamics/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index 35f5f5a..ee694ab 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -195,7 +195,7 @@ def save_geometry_json(filename, geometries):
         geometries (dict):
 
     """
-    with open(filename, 'a') as fp:
+    with open(filename, 'w') as fp:
         obj = {name: geometry_mapping(geom) for name, geom in
                geometries.items()}
         json.dump(obj, fp, indent=2, separators=(', ', ': '))
-- 
2.43.0


From 0c207907f1dcf89c26ec2a7d81ca18656c0a3155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:51 +0000
Subject: [PATCH 07/42] fix: TargetReached counts the agents that reached a
 target

---
 crowddynamics/simulation/logic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/simulation/logic.py b/crowddynamics/simulation/logic.py
index f6dba2b..4075be4 100644
--- a/crowddynamics/simulation/logic.py
+++ b/crowddynamics/simulation/logic.py
@@ -374,7 +374,7 @@ class TargetReached(LogicNode):
         # We can only measure polygon targets atm
         for i, target in enumerate(self.simulation.field.targets):
             if isinstance(target, Polygon):
-                name = self.prefix.format(i)
+                name = self.prefix.format(index=i)
                 self.names.append(name)
                 self.paths.append(Path(np.asarray(target.exterior)))
                 self.reached_by.append(np.zeros(size, dtype=np.bool_))
@@ -383,5 +383,6 @@ class TargetReached(LogicNode):
     def update(self):
         # TODO: update target reached
         for name, path, reached_by in zip(self.names, self.paths, self.reached_by):
-            reached_by |= path.contains_points(self.simulation.agents.array)
+            reached_by |= path.contains_points(
+                self.simulation.agents.array['position'])
             self.simulation.data[name] = np.sum(reached_by)
-- 
2.43.0


From e1c9b2fe07bb67546ac6c8fce38324e80e5ec6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 08/42] fix: MultiAgentProcess always puts the end marker into
 the queue

---
 crowddynamics/simulation/multiagent.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/simulation/multiagent.py b/crowddynamics/simulation/multiagent.py
index d434525..96b0d4e 100644
--- a/crowddynamics/simulation/multiagent.py
+++ b/crowddynamics/simulation/multiagent.py
@@ -92,7 +92,8 @@ class MultiAgentProcess(Process):
             self.logger.error(
                 'Simulation stopped to error: {}'.format(error))
             self.stop()
-        self.queue.put(self.EndProcess)
+        finally:
+            self.queue.put(self.EndProcess)
 
     @log_with(qualname=True, ignore={'self'})
     def stop(self):
-- 
2.43.0


From c9221e77b69512fef0190a5f992d217a0612541a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 09/42] fix: shoulders of a three circle agent follow its
 position and orientation

---
 crowddynamics/simulation/agents.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index 8ca55b7..94db2f3 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -408,6 +408,12 @@ class ThreeCircle(AgentType, States, BodyType, TranslationalMotion,
         return self.position + self.r_ts * rotate270(
             unit_vector(self.orientation))
 
+    @observe('position', 'orientation', 'r_ts')
+    def _observe_shoulders(self, change):
+        """Shoulders move along with the torso."""
+        self.position_ls = self._default_position_ls()
+        self.position_rs = self._default_position_rs()
+
     def overlapping(self, others):
         return overlapping_three_circles(
             others,
-- 
2.43.0


From 8f094d219279ede52c1cccb0c55b981875099301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:37 +0000
Subject: [PATCH 10/42] fix: AgentGroup generates its members once

---
 crowddynamics/simulation/agents.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index 94db2f3..2689bb3 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -595,8 +595,18 @@ class AgentGroup(HasTraits):
         Instance(AgentType),
         help='')
 
+    # Values of the traits that the current members were generated from
+    _generated_from = None
+
     @observe('size', 'agent_type', 'attributes')
     def _observe_members(self, change):
+        # Traits set by the constructor are notified one at a time after all
+        # of them have been set, but members should only be generated once.
+        source = (self.size, self.agent_type, self.attributes)
+        if self._generated_from is not None and all(
+                new is old for new, old in zip(source, self._generated_from)):
+            return
+
         if self.size > 0 and self.attributes is not None and self.agent_type is not None:
             if isinstance(self.attributes, Collection):
                 self.members = [self.agent_type(**a) for a in self.attributes]
@@ -606,6 +616,7 @@ class AgentGroup(HasTraits):
                 self.members = [self.agent_type(**self.attributes()) for _ in range(self.size)]
             else:
                 raise TraitError
+            self._generated_from = source
 
 
 class Agents(AgentsBase):
-- 
2.43.0


From 19d5e6da0db63e31c09e273ede6aa0f0637e731f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 11/42] fix: agents that were not placed are removed from the
 agents array

---
 crowddynamics/simulation/agents.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index 2689bb3..ba28f21 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -655,6 +655,13 @@ class Agents(AgentsBase):
             position_gen (Generator|Callable):
             obstacles (numpy.ndarray):
         """
+        try:
+            self._place_group(group, position_gen, obstacles)
+        finally:
+            # Agents that were not placed do not belong to the array
+            self.array = self.array[:self.index]
+
+    def _place_group(self, group, position_gen, obstacles):
         if self.agent_type is not group.agent_type:
             raise CrowdDynamicsException
 
@@ -689,9 +696,5 @@ class Agents(AgentsBase):
             self.index += 1
             index += 1
 
-        # TODO: remove agents that didn't fit from self.array
-        if self.index + 1 < self.array.size:
-            pass
-
         # Array should remain contiguous
         assert self.array.flags.c_contiguous
-- 
2.43.0


From dd965134ce25153749136e10e24e6707828bf8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:13 +0000
Subject: [PATCH 12/42] fix: overlapping check covers agents wider than a cell

---
 crowddynamics/simulation/agents.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index ba28f21..aa9a7f8 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -678,8 +678,11 @@ class Agents(AgentsBase):
             new_agent.position = position_gen() if callable(position_gen) \
                 else next(position_gen)
 
-            # Overlapping check
-            neighbours = self._neighbours.nearest(new_agent.position, radius=1)
+            # Overlapping check. Agents can overlap if they are closer than
+            # sum of their radii, which can span over multiple cells.
+            reach = new_agent.radius + np.max(self.array['radius'])
+            radius = max(1, int(np.ceil(reach / self.cell_size)))
+            neighbours = self._neighbours.nearest(new_agent.position, radius)
             if new_agent.overlapping(self.array[neighbours]):
                 # Agent is overlapping other agent.
                 overlaps += 1
-- 
2.43.0


From 94971e12f1bde8d95256d4a778b740ad86564e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:40 +0000
Subject: [PATCH 13/42] fix: rotational moment of the second agent uses its own
 position

---
 crowddynamics/core/distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/core/distance.py b/crowddynamics/core/distance.py
index 681e120..1b6c634 100644
--- a/crowddynamics/core/distance.py
+++ b/crowddynamics/core/distance.py
@@ -100,7 +100,7 @@ def distance_three_circles(x0, r0, x1, r1):
                 j_min = j
 
     r_moment0 = x0[i_min] + r0[i_min] * normal - x0[0]
-    r_moment1 = x0[j_min] - r1[j_min] * normal - x1[0]
+    r_moment1 = x1[j_min] - r1[j_min] * normal - x1[0]
 
     return h_min, normal, r_moment0, r_moment1
 
-- 
2.43.0


From d70e60bf20082dd6edd39b13a269b9154fe2b2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:19 +0000
Subject: [PATCH 14/42] fix: three circle social force ignores parts that are
 moving apart

---
 crowddynamics/core/motion/power_law.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/core/motion/power_law.py b/crowddynamics/core/motion/power_law.py
index a189068..d651e91 100644
--- a/crowddynamics/core/motion/power_law.py
+++ b/crowddynamics/core/motion/power_law.py
@@ -321,7 +321,7 @@ def force_social_three_circle(agent, i, j):
                 continue
 
             tau_new = (b - d) / a
-            if np.isnan(tau) or 0 < tau_new < tau:
+            if tau_new > 0 and (np.isnan(tau) or tau_new < tau):
                 contact_i, contact_j = part_i, part_j
                 tau = tau_new
                 b_min = b
-- 
2.43.0


From 477c43b477ec218005b2bbf09778efadbb90700a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:53 +0000
Subject: [PATCH 15/42] fix: InsideDomain counts the agents that are outside of
 the domain

---
 crowddynamics/simulation/logic.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crowddynamics/simulation/logic.py b/crowddynamics/simulation/logic.py
index 4075be4..8917160 100644
--- a/crowddynamics/simulation/logic.py
+++ b/crowddynamics/simulation/logic.py
@@ -351,10 +351,9 @@ class InsideDomain(LogicNode):
     def update(self):
         agents = self.simulation.agents.array
         new_state = self.domain_path.contains_points(agents['position'])
-        change = agents['active'] ^ new_state
         agents['active'] = new_state
 
-        self.simulation.data['inactive'] += np.sum(change)
+        self.simulation.data['inactive'] = np.sum(~new_state)
 
 
 class TargetReached(LogicNode):
-- 
2.43.0


From 5f26273560938e7a1b239e9b2a3f1bf90d6f98b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:53 +0000
Subject: [PATCH 16/42] fix: linestring_length_cumsum accumulates the lengths

---
 crowddynamics/core/sampling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/core/sampling.py b/crowddynamics/core/sampling.py
index 83a47a9..a80983a 100644
--- a/crowddynamics/core/sampling.py
+++ b/crowddynamics/core/sampling.py
@@ -10,10 +10,12 @@ from crowddynamics.core.geom2D import polygon_area
 @numba.jit(f8[:](f8[:, :]), nopython=True, nogil=True, cache=True)
 def linestring_length_cumsum(vertices):
     n = len(vertices) - 1
+    length = 0.0
     cumsum = np.zeros(n)
     for i in range(n):
         diff = vertices[i] - vertices[i + 1]
-        cumsum[i] = np.hypot(diff[0], diff[1])
+        length += np.hypot(diff[0], diff[1])
+        cumsum[i] = length
     return cumsum
 
 
-- 
2.43.0


From 9e4ec8733110e44637e3ebc8e13616ab3bebb776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:53 +0000
Subject: [PATCH 17/42] fix: poisson_timings does not shuffle the array of the
 caller

---
 crowddynamics/core/rand.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/core/rand.py b/crowddynamics/core/rand.py
index fe83f20..250e77f 100644
--- a/crowddynamics/core/rand.py
+++ b/crowddynamics/core/rand.py
@@ -115,9 +115,10 @@ def poisson_timings(players, interval, dt):
     # Compute update times for all agents.
     times = []
     indices = []
-    # TODO: check shuffle doesn't cause any side effects
-    np.random.shuffle(players)
-    for i in players:
+    # Shuffle a copy in order to not cause side effects for the caller
+    shuffled = players.copy()
+    np.random.shuffle(shuffled)
+    for i in shuffled:
         for t in poisson_clock(interval, dt):
             times.append(t)
             indices.append(i)
-- 
2.43.0


From 7203e3a25db7b8261f686766fbc35127bc023214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 18/42] fix: load_config refuses configurations that fail the
 validation

---
 crowddynamics/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/config.py b/crowddynamics/config.py
index 2cbdfe6..c9cea89 100644
--- a/crowddynamics/config.py
+++ b/crowddynamics/config.py
@@ -23,7 +23,7 @@ BODY_TYPES_CFG_SPEC = os.path.join(CONFIG_ROOT, 'body_types_spec.cfg')
 def load_config(infile, configspec=None):
     """Load configuration from INI file."""
     config = ConfigObj(infile=infile, configspec=configspec)
-    if configspec and not config.validate(Validator()):
+    if configspec and config.validate(Validator()) is not True:
         raise ValidationError
     return config
 
-- 
2.43.0


From 6f3e2cc76cec5204a009f25b251a3ccd3f7c678a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 19/42] fix: deprecated functions can be called

---
 crowddynamics/exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/exceptions.py b/crowddynamics/exceptions.py
index 3f25134..98f3f06 100644
--- a/crowddynamics/exceptions.py
+++ b/crowddynamics/exceptions.py
@@ -59,8 +59,8 @@ def deprecated(func):
         warnings.warn_explicit(
             "Call to deprecated function {}.".format(func.__name__),
             category=DeprecationWarning,
-            filename=func.func_code.co_filename,
-            lineno=func.func_code.co_firstlineno + 1
+            filename=func.__code__.co_filename,
+            lineno=func.__code__.co_firstlineno + 1
         )
         return func(*args, **kwargs)
     return new_func
-- 
2.43.0


From 6922b3ab796e33b285018bc9f53fa3f8e181b11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 20/42] fix: import_simulation_callables leaves the working
 directory of the caller

---
 crowddynamics/config.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/crowddynamics/config.py b/crowddynamics/config.py
index c9cea89..9b14db0 100644
--- a/crowddynamics/config.py
+++ b/crowddynamics/config.py
@@ -41,7 +41,7 @@ def import_simulation_callables(confpath):
         (str, typing.Callable[[...], MultiAgentSimulation]):
     """
     logger = logging.getLogger(__name__)
-    base, _ = os.path.split(confpath)
+    base, _ = os.path.split(os.path.abspath(confpath))
     config = load_config(confpath, configspec=CROWDDYNAMICS_CFG_SPEC)
     conf = config.get('simulations', [])
 
@@ -54,10 +54,13 @@ def import_simulation_callables(confpath):
                         spec = importlib.util.spec_from_file_location(name, path)
                         module = importlib.util.module_from_spec(spec)
                         spec.loader.exec_module(module)
-
-                        try:
-                            yield funcname, getattr(module, funcname)
-                        except AttributeError as e:
-                            logger.warning(e)
                 except ImportError as e:
                     logger.warning(e)
+                    continue
+
+                try:
+                    func = getattr(module, funcname)
+                except AttributeError as e:
+                    logger.warning(e)
+                    continue
+                yield funcname, func
-- 
2.43.0


From 928b68841a1a47d519c2d975b231cdabea69b99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:22 +0000
Subject: [PATCH 21/42] fix: run commands execute their own simulation with the
 given options

---
 crowddynamics/cli.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/cli.py b/crowddynamics/cli.py
index ecc7745..65f8a2b 100644
--- a/crowddynamics/cli.py
+++ b/crowddynamics/cli.py
@@ -70,6 +70,11 @@ def run(context, loglevel, num):
     context.obj = dict(num=num)
 
 
+def simulation_callback(simulation_cls):
+    """Callback that runs the simulation with the given options."""
+    return lambda **options: simulation_cls(**options).run()
+
+
 def simulation_commands():
     """Make commands simulations imported from python files in current working 
     directory."""
@@ -77,7 +82,7 @@ def simulation_commands():
     for simulation_name, simulation_cls in simulations.items():
         # New command
         command = click.Command(
-            simulation_name, callback=lambda: simulation_cls().run())
+            simulation_name, callback=simulation_callback(simulation_cls))
 
         # Add the command into run group
         run.add_command(command)
-- 
2.43.0


From 95ce639364fe7bdc706f3013c7de83fae508342a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 22/42] fix: simulations do not depend on the listing order of
 the directory

---
 crowddynamics/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/cli.py b/crowddynamics/cli.py
index 65f8a2b..fc7575d 100644
--- a/crowddynamics/cli.py
+++ b/crowddynamics/cli.py
@@ -24,7 +24,7 @@ class Colors:
 def import_simulations(dir_path='.'):
     """Import simulations from modules of the current working directory."""
     d = OrderedDict()
-    for path in os.listdir(dir_path):
+    for path in sorted(os.listdir(dir_path)):
         base, ext = os.path.splitext(path)
         if ext == '.py':
             d.update(import_subclasses(path, MultiAgentSimulation))
-- 
2.43.0


From a89ac970dac574e945837f6a0f65d962f27d2790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 23/42] fix: import_simulations imports from the given
 directory

---
 crowddynamics/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/cli.py b/crowddynamics/cli.py
index fc7575d..2c3cfe1 100644
--- a/crowddynamics/cli.py
+++ b/crowddynamics/cli.py
@@ -27,7 +27,8 @@ def import_simulations(dir_path='.'):
     for path in sorted(os.listdir(dir_path)):
         base, ext = os.path.splitext(path)
         if ext == '.py':
-            d.update(import_subclasses(path, MultiAgentSimulation))
+            d.update(import_subclasses(os.path.join(dir_path, path),
+                                       MultiAgentSimulation))
     return d
 
 
-- 
2.43.0


From 37b8f177b971f6847fcd89f63b98a694789f5afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 24/42] fix: choices of the loglevel option are strings

---
 crowddynamics/cli.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/cli.py b/crowddynamics/cli.py
index 2c3cfe1..8fd3fa3 100644
--- a/crowddynamics/cli.py
+++ b/crowddynamics/cli.py
@@ -1,5 +1,4 @@
 """Command-line interface for running crowddynamics."""
-import logging
 import os
 from collections import OrderedDict
 from pprint import pformat
@@ -59,8 +58,8 @@ def concat_npy(directory, basename):
 
 
 @main.group(chain=True)
-@click.option('--loglevel', type=click.Choice(LOGLEVELS),
-              default=logging.INFO,
+@click.option('--loglevel', type=click.Choice(list(map(str, LOGLEVELS))),
+              default='INFO',
               help='Choices for setting logging level.')
 @click.option('--num', type=int, default=1,
               help='Number of simulations to run.')
-- 
2.43.0


From 2649ceff2322f4124f58d9b946c157e73310f1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:58 +0000
Subject: [PATCH 25/42] fix: options of tuple traits have their default value
 and text items

---
 crowddynamics/traits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/traits.py b/crowddynamics/traits.py
index e7f84d0..22ded9a 100644
--- a/crowddynamics/traits.py
+++ b/crowddynamics/traits.py
@@ -68,7 +68,7 @@ def trait_to_type(trait):
         elif isinstance(trait, Bool):
             return bool
         elif isinstance(trait, Unicode):
-            raise str
+            return str
         else:
             raise InvalidValue('Trait conversion is not supported for: '
                                '{}'.format(trait))
@@ -145,7 +145,7 @@ def trait_to_option(name, trait):
                                 type=click.Choice(list(map(str, trait.values))))
         elif isinstance(trait, Tuple):
             return click.Option(param_decls=('--' + name,),
-                                default=trait.default_value,
+                                default=trait.make_dynamic_default(),
                                 type=tuple(
                                     trait_to_type(t) for t in trait._traits))
         else:
-- 
2.43.0


From 2a6e661483f5afbf1d536ba3366a5036a00000fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 26/42] fix: loading raises if a directory can not be listed

---
 crowddynamics/io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/io.py b/crowddynamics/io.py
index ee694ab..8675a74 100644
--- a/crowddynamics/io.py
+++ b/crowddynamics/io.py
@@ -72,8 +72,11 @@ def find_npy_files(directory, basename):
     Yields:
         (int, numpy.ndarray): Tuple containing (index, data)
     """
+    def onerror(error):
+        raise error
+
     pattern = npy_pattern(basename)
-    for root, dirs, files in os.walk(directory):
+    for root, dirs, files in os.walk(directory, onerror=onerror):
         for file in files:
             match = pattern.fullmatch(file)
             if match:
-- 
2.43.0


From b592adcb3d0c88e34566444fa164cb480144e679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:02 +0000
Subject: [PATCH 27/42] fix: euler_integrator rotates three-circle agents

The dtype of an agent array was compared by identity with the structured
type, which is never the same object for arrays built by Agents, so
three-circle agents were never turned and their shoulders stayed behind.
---
 crowddynamics/core/integrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crowddynamics/core/integrator.py b/crowddynamics/core/integrator.py
index efec3f1..bbf1664 100644
--- a/crowddynamics/core/integrator.py
+++ b/crowddynamics/core/integrator.py
@@ -155,7 +155,7 @@ def euler_integrator(agents, dt_min, dt_max):
     """
     dt = adaptive_timestep(agents, dt_min, dt_max)
     translational_euler(agents, dt)
-    if agents.dtype is agent_type_three_circle:
+    if is_model(agents, 'three_circle'):
         rotational_euler(agents, dt)
         shoulders(agents)
     return dt
-- 
2.43.0


From e5b40756239998c73b82e100a06575baaf42a94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:09 +0000
Subject: [PATCH 28/42] fix: size of a group is optional for a collection of
 attributes

It is documented to be optional, but the group stayed empty without it.
---
 crowddynamics/simulation/agents.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crowddynamics/simulation/agents.py b/crowddynamics/simulation/agents.py
index aa9a7f8..c7d1110 100644
--- a/crowddynamics/simulation/agents.py
+++ b/crowddynamics/simulation/agents.py
@@ -600,6 +600,11 @@ class AgentGroup(HasTraits):
 
     @observe('size', 'agent_type', 'attributes')
     def _observe_members(self, change):
+        if self.size == 0 and isinstance(self.attributes, Collection):
+            # Size does not have to be given for a collection. If it is not
+            # empty, members are generated when this change is notified.
+            self.size = len(self.attributes)
+
         # Traits set by the constructor are notified one at a time after all
         # of them have been set, but members should only be generated once.
         source = (self.size, self.agent_type, self.attributes)
-- 
2.43.0


From b67ad1f7e8a33c939683d692d08e7c47d22494fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:03 +0000
Subject: [PATCH 29/42] fix: agents are not followed if they are approached
 head-on

An agent moving straight towards another one (cosine of exactly one) was
taken to be heading away from it.
---
 crowddynamics/core/steering/collective_motion.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crowddynamics/core/steering/collective_motion.py b/crowddynamics/core/steering/collective_motion.py
index c8242c7..f6fcd6b 100644
--- a/crowddynamics/core/steering/collective_motion.py
+++ b/crowddynamics/core/steering/collective_motion.py
@@ -44,15 +44,14 @@ def herding_relationship(x1, x2, v1, v2, phi=np.pi / 2):
     c_i = dot(e_rel, normalize(v1))
     c_j = -dot(e_rel, normalize(v2))
 
-    # 1.0 = cos(0)
     cos_phi = np.cos(phi)
-    if cos_phi < c_i < 1.0:
-        if cos_phi < c_j < 1.0:
+    if cos_phi < c_i:
+        if cos_phi < c_j:
             return False, False
         else:
             return True, False
     else:
-        if cos_phi < c_j < 1.0:
+        if cos_phi < c_j:
             return False, True
         else:
             return True, True
-- 
2.43.0


From 6e4d87fe58557c4ede5b8a0fd8c423ec8741cfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 30/42] fix: agents keep their direction where the direction
 map is not defined

---
 crowddynamics/core/steering/navigation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/core/steering/navigation.py b/crowddynamics/core/steering/navigation.py
index 7d81d77..ff4a72e 100644
--- a/crowddynamics/core/steering/navigation.py
+++ b/crowddynamics/core/steering/navigation.py
@@ -73,6 +73,9 @@ def getdefault(indices, dir_map, defaults):
     for k in range(len(indices)):
         i, j = indices[k]
         if is_inside((i, j), (0, 0), x.shape):
-            out[k][0] = x[i, j]
-            out[k][1] = y[i, j]
+            # Direction is not defined in the obstacles and where the gradient
+            # of the distance map is zero.
+            if np.isfinite(x[i, j]) and np.isfinite(y[i, j]):
+                out[k][0] = x[i, j]
+                out[k][1] = y[i, j]
     return out
-- 
2.43.0


From aa7975ba5ec40d9129a4aaa6c1943f0bc32a74a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 31/42] fix: positions sampled from a spawn lie in it and clear
 of obstacles

---
 crowddynamics/simulation/field.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/simulation/field.py b/crowddynamics/simulation/field.py
index 3671ab1..79e176e 100644
--- a/crowddynamics/simulation/field.py
+++ b/crowddynamics/simulation/field.py
@@ -1,7 +1,7 @@
 from functools import lru_cache
 
 import numpy as np
-from shapely.geometry import Polygon
+from shapely.geometry import Point, Polygon
 from shapely.geometry.base import BaseGeometry
 from traitlets import Instance, List, validate
 
@@ -121,7 +121,9 @@ class Field(FieldBase):
         """Generates positions for agents"""
         geom = spawn - obstacles.buffer(radius) if obstacles else spawn
         vertices = np.asarray(geom.convex_hull.exterior)
-        return polygon_sample(vertices)
+        # Polygon sampling treats non-convex regions as their convex hull.
+        return (position for position in polygon_sample(vertices)
+                if geom.contains(Point(*position)))
 
     def sample_spawn(self, spawn_index: int, radius: float = 0.3):
         """Generator for sampling points inside spawn without overlapping with
-- 
2.43.0


From c0d5c35810ecdd8d75f21eab35174efaaef343a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:43 +0000
Subject: [PATCH 32/42] fix: navigation does not require obstacles

---
 crowddynamics/core/steering/navigation.py    | 3 +++
 crowddynamics/core/steering/quickest_path.py | 4 ++++
 crowddynamics/simulation/field.py            | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/crowddynamics/core/steering/navigation.py b/crowddynamics/core/steering/navigation.py
index ff4a72e..086d981 100644
--- a/crowddynamics/core/steering/navigation.py
+++ b/crowddynamics/core/steering/navigation.py
@@ -47,6 +47,9 @@ def static_potential(domain, targets, obstacles,
 
     dir_map_targets, dmap_targets = shortest_path(mgrid, domain, targets,
                                                   obstacles, radius)
+    if obstacles is None:
+        return mgrid, dmap_targets, dir_map_targets
+
     dir_map_obs, dmap_obs = direction_map_obstacles(mgrid, obstacles)
 
     # Combines two direction maps in a way that agents do not run into a wall
diff --git a/crowddynamics/core/steering/quickest_path.py b/crowddynamics/core/steering/quickest_path.py
index 2895773..5b67245 100644
--- a/crowddynamics/core/steering/quickest_path.py
+++ b/crowddynamics/core/steering/quickest_path.py
@@ -183,6 +183,10 @@ def fill_missing(mask, x, y, u, v):
 
 def shortest_path(mgrid, domain, targets, obstacles, buffer_radius):
     """Vector field guiding towards targets."""
+    if obstacles is None:
+        dmap_targets = distance_map(mgrid, targets, None)
+        return direction_map(dmap_targets), dmap_targets
+
     obstacles_buffered = obstacles.buffer(buffer_radius).intersection(domain)
 
     dmap_targets = distance_map(mgrid, targets, obstacles_buffered)
diff --git a/crowddynamics/simulation/field.py b/crowddynamics/simulation/field.py
index 79e176e..a817291 100644
--- a/crowddynamics/simulation/field.py
+++ b/crowddynamics/simulation/field.py
@@ -160,6 +160,9 @@ class Field(FieldBase):
             raise CrowdDynamicsException('No targets are set.')
 
         dir_map_targets, dmap_targets = self.shortest_path_target(step, index, radius)
+        if self.obstacles is None:
+            return self.meshgrid(step), dmap_targets, dir_map_targets
+
         dir_map_obs, dmap_obs = self.direction_map_obstacles(step)
         dir_map = obstacle_handling(dmap_obs, dir_map_obs, dir_map_targets,
                                     radius, strength)
-- 
2.43.0


From d8200c6139e5dab4464f38fc3d445715c663fb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:14 +0000
Subject: [PATCH 33/42] fix: continuous obstacle handling uses both components
 of the direction

---
 crowddynamics/core/steering/obstacle_handling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/core/steering/obstacle_handling.py b/crowddynamics/core/steering/obstacle_handling.py
index 8d462ff..b4e721f 100644
--- a/crowddynamics/core/steering/obstacle_handling.py
+++ b/crowddynamics/core/steering/obstacle_handling.py
@@ -85,12 +85,12 @@ def obstacle_handling_continuous(dmap_obs, dir_map_obs, direction_target,
 
     for k in range(len(indices)):
         i, j = indices[k, 0], indices[k, 1]
-        u2, v2 = direction_target[k, 1], direction_target[k, 1]
-        x = -dmap_obs[i, j]
+        u2, v2 = direction_target[k, 0], direction_target[k, 1]
 
         if not (0 <= i < n and 0 <= j < m):
             continue
 
+        x = -dmap_obs[i, j]
         if 0 < x < radius:
             # Decreasing function
             p = strength ** (x / radius)
-- 
2.43.0


From 00f6e636a1624c4afc6b855428687c2aeb28d47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:27 +0000
Subject: [PATCH 34/42] fix: navigation follows changes of the field

---
 crowddynamics/simulation/field.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/simulation/field.py b/crowddynamics/simulation/field.py
index a817291..0d323dc 100644
--- a/crowddynamics/simulation/field.py
+++ b/crowddynamics/simulation/field.py
@@ -3,7 +3,7 @@ from functools import lru_cache
 import numpy as np
 from shapely.geometry import Point, Polygon
 from shapely.geometry.base import BaseGeometry
-from traitlets import Instance, List, validate
+from traitlets import Instance, List, observe, validate
 
 from crowddynamics.core.geometry import union
 from crowddynamics.core.sampling import polygon_sample
@@ -84,7 +84,6 @@ class Field(FieldBase):
         Instance(BaseGeometry),
         help='List of spawns')
 
-    # TODO: invalidate caches if field changes?
     # TODO: implement direction and distance map as lazy properties
 
     @validate('domain')
@@ -105,6 +104,13 @@ class Field(FieldBase):
             raise ValidationError('{} should not empty'.format(value))
         return value
 
+    @observe('domain', 'obstacles', 'targets')
+    def _invalidate_caches(self, change):
+        for method in (Field.meshgrid, Field.shortest_path_target,
+                       Field.direction_map_obstacles,
+                       Field.navigation_to_target):
+            method.cache_clear()
+
     def convex_hull(self):
         """Convex hull of union of all objects in the field."""
         field = BaseGeometry()
-- 
2.43.0


From 48e1ff4ff7c6cab817d4a7abdfac45fc74b92289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:57 +0000
Subject: [PATCH 35/42] fix: social force of three-circle agents is the
 gradient of its energy

---
 crowddynamics/core/motion/power_law.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crowddynamics/core/motion/power_law.py b/crowddynamics/core/motion/power_law.py
index d651e91..12d6bbc 100644
--- a/crowddynamics/core/motion/power_law.py
+++ b/crowddynamics/core/motion/power_law.py
@@ -137,7 +137,8 @@ def gradient_three_circle(x_rel, v_rel, r_off, a, b, d):
     Args:
         x_rel (numpy.ndarray):
         v_rel (numpy.ndarray):
-        r_off (numpy.ndarray):
+        r_off (numpy.ndarray): Difference of the displacements of the parts in
+            contact from the centers of mass.
         a (float):
         b (float):
         d (float):
@@ -146,7 +147,7 @@ def gradient_three_circle(x_rel, v_rel, r_off, a, b, d):
         numpy.ndarray:
 
     """
-    return (v_rel - (a * (x_rel + 2 * r_off) + b * v_rel) / d) / a
+    return (v_rel - (a * (x_rel + r_off) + b * v_rel) / d) / a
 
 
 @numba.jit(Tuple((f8, f8[:]))(f8[:], f8[:], f8),
@@ -334,20 +335,19 @@ def force_social_three_circle(agent, i, j):
     r_off_i = np.zeros(2)
     r_off_j = np.zeros(2)
 
-    # TODO: Fix signs
     if contact_i == 1:
         phi = agent[i]['orientation']
-        r_off_i += agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
+        r_off_i -= agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
     elif contact_i == 2:
         phi = agent[i]['orientation']
-        r_off_i -= agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
+        r_off_i += agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
 
     if contact_j == 1:
         phi = agent[j]['orientation']
-        r_off_j += agent[j]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
+        r_off_j -= agent[j]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
     elif contact_j == 2:
         phi = agent[j]['orientation']
-        r_off_j -= agent[j]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
+        r_off_j += agent[j]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))
 
     x_rel = agent[i]['position'] - agent[j]['position']
     r_off = r_off_i - r_off_j
-- 
2.43.0


From b372f067b3effcd0e19b9653d908fe8da8804e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:06 +0000
Subject: [PATCH 36/42] fix: contact damping slows agents down

---
 crowddynamics/core/motion/contact.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/core/motion/contact.py b/crowddynamics/core/motion/contact.py
index 33e75fa..1332153 100644
--- a/crowddynamics/core/motion/contact.py
+++ b/crowddynamics/core/motion/contact.py
@@ -17,7 +17,7 @@ def force_contact(h, n, v, t, mu, kappa, damping):
 
     .. math::
        \mathbf{f}^{c}(h) = - h \cdot \left(\mu \cdot \hat{\mathbf{n}} -
-       \kappa \cdot (\mathbf{v} \cdot \hat{\mathbf{t}}) \hat{\mathbf{t}}\right) +
+       \kappa \cdot (\mathbf{v} \cdot \hat{\mathbf{t}}) \hat{\mathbf{t}}\right) -
        c \cdot (\mathbf{v} \cdot \hat{\mathbf{n}}) \hat{\mathbf{n}}
 
     Args:
@@ -45,4 +45,4 @@ def force_contact(h, n, v, t, mu, kappa, damping):
     Returns:
         numpy.ndarray: Contact force vector
     """
-    return - h * (mu * n - kappa * dot(v, t) * t) + damping * dot(v, n) * n
+    return - h * (mu * n - kappa * dot(v, t) * t) - damping * dot(v, n) * n
-- 
2.43.0


From 1bd14b1893aa583ad1f003d9af00845a35bf61ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:09 +0000
Subject: [PATCH 37/42] fix: torque between three-circle agents acts at the
 point of contact

---
 crowddynamics/core/distance.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crowddynamics/core/distance.py b/crowddynamics/core/distance.py
index 1b6c634..cde1b95 100644
--- a/crowddynamics/core/distance.py
+++ b/crowddynamics/core/distance.py
@@ -73,8 +73,8 @@ def distance_three_circles(x0, r0, x1, r1):
     .. math::
 
        \mathbf{\hat{n}} &= \frac{\mathbf{x}_0 - \mathbf{x}_1}{\|\mathbf{x}_0 - \mathbf{x}_1\|} \\
-       \mathbf{r}_{\mathrm{moment}_0} &= \mathbf{x}_0 + r_0 \mathbf{\hat{n}} - \mathbf{x}_{\mathrm{torso}} \\
-       \mathbf{r}_{\mathrm{moment}_1} &= \mathbf{x}_1 - r_1 \mathbf{\hat{n}} - \mathbf{x}_{\mathrm{torso}}
+       \mathbf{r}_{\mathrm{moment}_0} &= \mathbf{x}_0 - r_0 \mathbf{\hat{n}} - \mathbf{x}_{\mathrm{torso}} \\
+       \mathbf{r}_{\mathrm{moment}_1} &= \mathbf{x}_1 + r_1 \mathbf{\hat{n}} - \mathbf{x}_{\mathrm{torso}}
 
     Args:
         x0 ((numpy.ndarray, numpy.ndarray, numpy.ndarray)):
@@ -99,8 +99,8 @@ def distance_three_circles(x0, r0, x1, r1):
                 i_min = i
                 j_min = j
 
-    r_moment0 = x0[i_min] + r0[i_min] * normal - x0[0]
-    r_moment1 = x1[j_min] - r1[j_min] * normal - x1[0]
+    r_moment0 = x0[i_min] - r0[i_min] * normal - x0[0]
+    r_moment1 = x1[j_min] + r1[j_min] * normal - x1[0]
 
     return h_min, normal, r_moment0, r_moment1
 
-- 
2.43.0


From 2c5f489d561255d35aa2e20fc895242e6a870b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:16 +0000
Subject: [PATCH 38/42] fix: add the recorder above the root of the logic tree

Below nodes placed before Reset (states, another recorder) it was not the
last node to be evaluated and recorded their values one iteration late.
---
 crowddynamics/simulation/logic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crowddynamics/simulation/logic.py b/crowddynamics/simulation/logic.py
index 8917160..ab40761 100644
--- a/crowddynamics/simulation/logic.py
+++ b/crowddynamics/simulation/logic.py
@@ -325,7 +325,8 @@ class SaveSimulationData(LogicNode):
         return self.simulation.name_with_timestamp
 
     def add_to_simulation_logic(self):
-        self.simulation.logic['Reset'].inject_before(self)
+        # The root is evaluated last, other nodes may be placed before Reset
+        self.simulation.logic.root.inject_before(self)
 
     def update(self):
         save = self.save_condition(self.simulation)
-- 
2.43.0


From 3a1e69bd6bacb918e7f9dc3476093e12a8d866bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:56 +0000
Subject: [PATCH 39/42] fix: holes of polygons have walls and do not erase
 other obstacles

---
 crowddynamics/core/geometry.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crowddynamics/core/geometry.py b/crowddynamics/core/geometry.py
index b254067..0929f3f 100644
--- a/crowddynamics/core/geometry.py
+++ b/crowddynamics/core/geometry.py
@@ -89,7 +89,8 @@ def geom_to_linesegment(geom: BaseGeometry):
     elif isinstance(geom, LineString):
         return zip(geom.coords[:-1], geom.coords[1:])
     elif isinstance(geom, Polygon):
-        return zip(geom.exterior.coords[:-1], geom.exterior.coords[1:])
+        return chain.from_iterable(map(
+            geom_to_linesegment, (geom.exterior, *geom.interiors)))
     elif isinstance(geom, BaseMultipartGeometry):
         return chain.from_iterable(map(geom_to_linesegment, geom))
     else:
@@ -116,13 +117,16 @@ def draw_geom(geom: BaseGeometry,
             grid[y, x] = value
     elif isinstance(geom, Polygon):
         i = indicer(geom.exterior)
+        area = np.full(grid.shape, False, dtype=np.bool_)
         x, y = skimage.draw.polygon(i[:, 0], i[:, 1])
-        grid[y, x] = value
-        x, y = skimage.draw.polygon_perimeter(i[:, 0], i[:, 1])
-        grid[y, x] = value
+        area[y, x] = True
         for j in map(indicer, geom.interiors):
             x, y = skimage.draw.polygon(j[:, 0], j[:, 1])
-            grid[y, x] = 0
+            area[y, x] = False
+        grid[area] = value
+        for j in map(indicer, (geom.exterior, *geom.interiors)):
+            x, y = skimage.draw.polygon_perimeter(j[:, 0], j[:, 1])
+            grid[y, x] = value
     elif isinstance(geom, BaseMultipartGeometry):
         for geo in geom:
             draw_geom(geo, grid, indicer, value)
-- 
2.43.0


From 0a252063105ea5ce0ce7651564855b4a1c28b77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:56 +0000
Subject: [PATCH 40/42] fix: agents in a hole of the domain or a target are not
 inside of it

---
 crowddynamics/simulation/logic.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/simulation/logic.py b/crowddynamics/simulation/logic.py
index ab40761..fafdad3 100644
--- a/crowddynamics/simulation/logic.py
+++ b/crowddynamics/simulation/logic.py
@@ -341,13 +341,26 @@ class SaveSimulationData(LogicNode):
 # States
 
 
+class PolygonPath(object):
+    """Tests which points are inside the polygon but not in its holes."""
+    def __init__(self, polygon):
+        self.exterior = Path(np.asarray(polygon.exterior))
+        self.interiors = [Path(np.asarray(hole)) for hole in polygon.interiors]
+
+    def contains_points(self, points):
+        inside = self.exterior.contains_points(points)
+        for hole in self.interiors:
+            inside &= ~hole.contains_points(points)
+        return inside
+
+
 class InsideDomain(LogicNode):
     """Sets agents not inside the domain inactive."""
     def __init__(self, simulation):
         super().__init__(simulation)
         self.simulation.data['inactive'] = 0
         field = self.simulation.field
-        self.domain_path = Path(np.asarray(field.domain.exterior))
+        self.domain_path = PolygonPath(field.domain)
 
     def update(self):
         agents = self.simulation.agents.array
@@ -376,7 +389,7 @@ class TargetReached(LogicNode):
             if isinstance(target, Polygon):
                 name = self.prefix.format(index=i)
                 self.names.append(name)
-                self.paths.append(Path(np.asarray(target.exterior)))
+                self.paths.append(PolygonPath(target))
                 self.reached_by.append(np.zeros(size, dtype=np.bool_))
                 self.simulation.data[name] = 0
 
-- 
2.43.0


From 11bbc1f5c5b11b15002fd516dd07b434d303adbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:17 +0000
Subject: [PATCH 41/42] fix: agents are counted against the current domain of
 the field

---
 crowddynamics/simulation/logic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crowddynamics/simulation/logic.py b/crowddynamics/simulation/logic.py
index fafdad3..49a9a27 100644
--- a/crowddynamics/simulation/logic.py
+++ b/crowddynamics/simulation/logic.py
@@ -359,11 +359,14 @@ class InsideDomain(LogicNode):
     def __init__(self, simulation):
         super().__init__(simulation)
         self.simulation.data['inactive'] = 0
-        field = self.simulation.field
-        self.domain_path = PolygonPath(field.domain)
+        self.domain = self.simulation.field.domain
+        self.domain_path = PolygonPath(self.domain)
 
     def update(self):
         agents = self.simulation.agents.array
+        if self.simulation.field.domain is not self.domain:
+            self.domain = self.simulation.field.domain
+            self.domain_path = PolygonPath(self.domain)
         new_state = self.domain_path.contains_points(agents['position'])
         agents['active'] = new_state
 
-- 
2.43.0


From fc41c1d8ec04413958895cc2a014130fd6bb7803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:12 +0000
Subject: [PATCH 42/42] fix: maps end at the edge of the domain

---
 crowddynamics/core/steering/quickest_path.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crowddynamics/core/steering/quickest_path.py b/crowddynamics/core/steering/quickest_path.py
index 5b67245..40a6b7d 100644
--- a/crowddynamics/core/steering/quickest_path.py
+++ b/crowddynamics/core/steering/quickest_path.py
@@ -33,15 +33,18 @@ def meshgrid(step: float, minx: float, miny: float,
     Returns:
         MeshGrid:
     """
-    x = np.arange(minx, maxx + step, step=step)
-    y = np.arange(miny, maxy + step, step=step)
+    # Last cells contain the upper bounds (allowing for rounding errors). Cells
+    # beyond them would be a way around the obstacles on the edge of the domain.
+    tol = 1e-6
+    x = minx + step * np.arange(int((maxx - minx) / step + tol) + 1)
+    y = miny + step * np.arange(int((maxy - miny) / step + tol) + 1)
     values = np.meshgrid(x, y, indexing='xy')
     shape = values[0].shape
 
     def indicer(position):
         """Converts positions to meshgrid indices"""
         shifted = np.asarray(position) - np.array((minx, miny))
-        return (shifted / step).astype(np.int64)
+        return (shifted / step + tol).astype(np.int64)
 
     return MeshGrid(
         values=values, shape=shape, step=step, bounds=(minx, miny, maxx, maxy),
-- 
2.43.0

