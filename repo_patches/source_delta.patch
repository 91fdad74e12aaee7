From f13b4384de97e47f6cbfd90e8b55db7c04245ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 001/147] fix: BBox inequality compared one box's pMin with the
 other's pMax

---
 pytracer/geometry/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/geometry/__init__.py b/pytracer/geometry/__init__.py
index 81c292c..553f095 100644
--- a/pytracer/geometry/__init__.py
+++ b/pytracer/geometry/__init__.py
@@ -422,7 +422,7 @@ class BBox:
 		       np.array_equal(self.pMax, other.pMax)
 
 	def __ne__(self, other):
-		return not np.array_equal(self.pMin, other.pMax) or \
+		return not np.array_equal(self.pMin, other.pMin) or \
 		       not np.array_equal(self.pMin, other.pMax)
 
 	def __getitem__(self, key):
-- 
2.43.0


From e42a1d0af00d06eebf4a64eb5eaec9a72b6841ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 002/147] fix: copying an empty BBox turned it into the box
 covering all space

---
 pytracer/geometry/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytracer/geometry/__init__.py b/pytracer/geometry/__init__.py
index 553f095..7173f3f 100644
--- a/pytracer/geometry/__init__.py
+++ b/pytracer/geometry/__init__.py
@@ -410,7 +410,10 @@ class BBox:
 
 	@classmethod
 	def from_bbox(cls, box: 'BBox'):
-		return cls(box.pMin, box.pMax)
+		ret = cls()
+		ret.pMin = box.pMin.copy()
+		ret.pMax = box.pMax.copy()
+		return ret
 
 	def __repr__(self):
 		return "{}\npMin:{}\npMax:{}".format(self.__class__,
-- 
2.43.0


From 0967c1ff2d19c483f079aad38834d893d621aade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 003/147] fix: transforming a RayDifferential left its offset
 rays untransformed

---
 pytracer/transform/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index 5a92c85..c7e1f6e 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -72,6 +72,10 @@ class Transform(object):
 			r = geo.RayDifferential.from_rd(arg)
 			r.o = self(r.o)
 			r.d = self(r.d)
+			r.rxOrigin = self(r.rxOrigin)
+			r.ryOrigin = self(r.ryOrigin)
+			r.rxDirection = self(r.rxDirection)
+			r.ryDirection = self(r.ryDirection)
 			return r
 
 		elif isinstance(arg, geo.Ray):
-- 
2.43.0


From cc2bbdfa0744bf9f1cff5617337771edfd95293b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 004/147] fix: look_at stored the camera axes as rows, so the
 camera looked along the transposed direction

---
 pytracer/transform/__init__.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index c7e1f6e..891a385 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -208,31 +208,31 @@ class Transform(object):
 
 		# c2w rotation
 		c2w[0][0] = xc.x
-		c2w[0][1] = xc.y
-		c2w[0][2] = xc.z
-		c2w[1][0] = yc.x
+		c2w[1][0] = xc.y
+		c2w[2][0] = xc.z
+		c2w[0][1] = yc.x
 		c2w[1][1] = yc.y
-		c2w[1][2] = yc.z
-		c2w[2][0] = zc.x
-		c2w[2][1] = zc.y
+		c2w[2][1] = yc.z
+		c2w[0][2] = zc.x
+		c2w[1][2] = zc.y
 		c2w[2][2] = zc.z
 
 		# w2c rotation
 		# in effect as camera extrinsic
 		w2c[0][0] = xc.x
-		w2c[0][1] = yc.x
-		w2c[0][2] = zc.x
-		w2c[1][0] = xc.y
+		w2c[0][1] = xc.y
+		w2c[0][2] = xc.z
+		w2c[1][0] = yc.x
 		w2c[1][1] = yc.y
-		w2c[1][2] = zc.y
-		w2c[2][0] = xc.z
-		w2c[2][1] = yc.z
+		w2c[1][2] = yc.z
+		w2c[2][0] = zc.x
+		w2c[2][1] = zc.y
 		w2c[2][2] = zc.z
 
 		# w2c translation
-		w2c[0][3] = -(pos.x * xc.x + pos.y * yc.x + pos.z * zc.x)
-		w2c[1][3] = -(pos.x * xc.y + pos.y * yc.y + pos.z * zc.y)
-		w2c[2][3] = -(pos.x * xc.z + pos.y * yc.z + pos.z * zc.z)
+		w2c[0][3] = -(pos.x * xc.x + pos.y * xc.y + pos.z * xc.z)
+		w2c[1][3] = -(pos.x * yc.x + pos.y * yc.y + pos.z * yc.z)
+		w2c[2][3] = -(pos.x * zc.x + pos.y * zc.y + pos.z * zc.z)
 
 		return cls(c2w, w2c, dtype)
 
-- 
2.43.0


From be9a5e9caf77a5089cf6cde4acce62104a3c50cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 005/147] fix: matrix-to-quaternion conversion used the 4x4
 trace and picked the smallest diagonal entry

---
 pytracer/transform/quat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/transform/quat.py b/pytracer/transform/quat.py
index 609f515..c3d48ca 100644
--- a/pytracer/transform/quat.py
+++ b/pytracer/transform/quat.py
@@ -35,7 +35,7 @@ def to_transform(q: 'Quaternion') -> 'Transform':
 
 def from_transform(t: 'Transform') -> 'Quaternion':
 	m = t.m
-	tr = m.trace()
+	tr = m[0, 0] + m[1, 1] + m[2, 2]
 
 	if tr > .0:
 		s = np.sqrt(tr + 1.)
@@ -52,7 +52,7 @@ def from_transform(t: 'Transform') -> 'Quaternion':
 		i = 0
 		if m[1, 1] > m[0, 0]:
 			i = 1
-		if m[2, 2] < m[i, i]:
+		if m[2, 2] > m[i, i]:
 			i = 2
 		j = nxt[i]
 		k = nxt[j]
@@ -71,7 +71,7 @@ def from_transform(t: 'Transform') -> 'Quaternion':
 
 def from_arr(t: 'np.ndarray') -> 'Quaternion':
 	m = t
-	tr = m.trace()
+	tr = m[0, 0] + m[1, 1] + m[2, 2]
 
 	if tr > .0:
 		s = np.sqrt(tr + 1.)
@@ -88,7 +88,7 @@ def from_arr(t: 'np.ndarray') -> 'Quaternion':
 		i = 0
 		if m[1, 1] > m[0, 0]:
 			i = 1
-		if m[2, 2] < m[i, i]:
+		if m[2, 2] > m[i, i]:
 			i = 2
 		j = nxt[i]
 		k = nxt[j]
-- 
2.43.0


From c17091bfa354e982bf12e25b1ea77682473f9508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 006/147] fix: animated rotation could take the long way round
 between two keyframes

---
 pytracer/transform/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index 891a385..ab8e212 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -285,6 +285,11 @@ class AnimatedTransform(object):
 			self.T[0], self.R[0], self.S[0] = AnimatedTransform.decompose(t1.m)
 			self.T[1], self.R[1], self.S[1] = AnimatedTransform.decompose(t2.m)
 
+			# q and -q are the same rotation, interpolate along the shorter arc
+			from pytracer.transform.quat import dot
+			if dot(self.R[0], self.R[1]) < 0.:
+				self.R[1] = -self.R[1]
+
 	def __repr__(self):
 		return "{}\nTime: {} - {}\nAnimated: {}".format(self.__class__,
 		                                                self.startTime, self.endTime, self.animated)
-- 
2.43.0


From 6b9255a058089e6836b8e626a97318db4b5fb250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 007/147] fix: world and motion bounds of rotated or mirrored
 shapes did not contain the shape (and motion_bounds ignored use_inv when not
 animated)

---
 pytracer/shape/__init__.py     |  2 +-
 pytracer/transform/__init__.py | 19 +++++++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/pytracer/shape/__init__.py b/pytracer/shape/__init__.py
index 2497a24..f84cadc 100644
--- a/pytracer/shape/__init__.py
+++ b/pytracer/shape/__init__.py
@@ -61,7 +61,7 @@ class Shape(object, metaclass=ABCMeta):
 		raise NotImplementedError('unimplemented Shape.object_bound() method called')
 
 	def world_bound(self) -> 'geo.BBox':
-		return self.o2w(self.object_bound())
+		return self.o2w.bound(self.object_bound())
 
 	def can_intersect(self) -> bool:
 		return True
diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index ab8e212..e42e269 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -99,6 +99,20 @@ class Transform(object):
 		else:
 			raise TypeError('Transform can only be called on geo.Point, geo.Vector, geo.Normal, geo.Ray or geo.geo.BBox')
 
+	def bound(self, b: 'geo.BBox') -> 'geo.BBox':
+		"""
+		bound
+
+		Axis-aligned box containing the transformed box,
+		i.e., all of its eight transformed corners.
+		"""
+		ret = geo.BBox()
+		for x in (b.pMin.x, b.pMax.x):
+			for y in (b.pMin.y, b.pMax.y):
+				for z in (b.pMin.z, b.pMax.z):
+					ret.union(self(geo.Point(x, y, z)))
+		return ret
+
 	def __mul__(self, other):
 		m = self.m.dot(other.m)
 		m_inv = other.m_inv.dot(self.m_inv)
@@ -328,7 +342,8 @@ class AnimatedTransform(object):
 
 	def motion_bounds(self, b: 'geo.BBox', use_inv: bool=False) -> 'geo.BBox':
 		if not self.animated:
-			return self.startTransform.inverse()(b)
+			t = self.startTransform.inverse() if use_inv else self.startTransform
+			return t.bound(b)
 		ret = geo.BBox()
 		steps = 128
 		for i in range(128):
@@ -336,7 +351,7 @@ class AnimatedTransform(object):
 			t = self.interpolate(time)
 			if use_inv:
 				t = t.inverse()
-			ret.union(t(b))
+			ret.union(t.bound(b))
 		return ret
 
 	@staticmethod
-- 
2.43.0


From c63c75b4b7c0bb1553c44365eba51bf193defc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 008/147] fix: world bounds of rotated volume regions did not
 contain the region

---
 pytracer/volume/volume.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 2a13f79..aa68e9f 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -133,7 +133,7 @@ class HomogeneousVolumeDensity(VolumeRegion):
 
 
 	def world_bound(self) ->  'geo.BBox':
-		return self.w2v.inverse()(self.extent)
+		return self.w2v.inverse().bound(self.extent)
 
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
@@ -296,7 +296,7 @@ class VolumeGridDensity(DensityRegion):
 
 
 	def world_bound(self) ->  'geo.BBox':
-		return self.w2v.inverse()(self.extent)
+		return self.w2v.inverse().bound(self.extent)
 
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
@@ -326,7 +326,7 @@ class ExponentialDensity(DensityRegion):
 		return self.a * np.exp(-self.b * h)
 
 	def world_bound(self) ->  'geo.BBox':
-		return self.w2v.inverse()(self.extent)
+		return self.w2v.inverse().bound(self.extent)
 
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
-- 
2.43.0


From 5ea9c82b0b0849364d4e51d9d950201bdc1494bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 009/147] fix: volume regions intersected the untransformed
 world ray with their object-space extent

---
 pytracer/volume/volume.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index aa68e9f..d359cd0 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -138,7 +138,7 @@ class HomogeneousVolumeDensity(VolumeRegion):
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
 		r = self.w2v(ray)
-		return self.extent.intersect_p(ray)
+		return self.extent.intersect_p(r)
 
 	def sigma_a(self, pnt: 'geo.Point', vec: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
 		return self.sig_a if self.extent.inside(self.w2v(pnt)) else Spectrum(0.)
@@ -301,7 +301,7 @@ class VolumeGridDensity(DensityRegion):
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
 		r = self.w2v(ray)
-		return self.extent.intersect_p(ray)
+		return self.extent.intersect_p(r)
 
 
 class ExponentialDensity(DensityRegion):
@@ -331,7 +331,7 @@ class ExponentialDensity(DensityRegion):
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
 		r = self.w2v(ray)
-		return self.extent.intersect_p(ray)
+		return self.extent.intersect_p(r)
 
 
 class AggregateVolume(VolumeRegion):
-- 
2.43.0


From af4af2024ce614f51a5e06c549c313522ee9d936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 010/147] fix: volume regions used the time as the phase
 asymmetry

---
 pytracer/volume/volume.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index d359cd0..2bd8016 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -157,7 +157,7 @@ class HomogeneousVolumeDensity(VolumeRegion):
 		if not self.extent.inside(self.w2v(pnt)):
 			return 0.
 		from pytracer.volume.utility import phase_hg
-		return phase_hg(wi, wo, tm)
+		return phase_hg(wi, wo, self.g)
 
 	def tau(self, ray: 'geo.Ray', step: FLOAT=1., offset: FLOAT=.5) ->  'Spectrum':
 		isec, t0, t1 = self.intersect_p(ray)
@@ -210,7 +210,7 @@ class DensityRegion(VolumeRegion):
 		Does not scale the phase function.
 		"""
 		from pytracer.volume.utility import phase_hg
-		return phase_hg(w, wp, tm)
+		return phase_hg(w, wp, self.g)
 
 	def sigma_t(self, pnt: 'geo.Point', vec: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
 		return self(self.w2v(pnt)) * (self.sig_a + self.sig_s)
-- 
2.43.0


From 1e6a54dc56bdee41fd29b0a7ef8a888a2907809c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 011/147] fix: VolumeGridDensity could not be constructed or
 evaluated and mixed up its [z][y][x] axes

---
 pytracer/volume/volume.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 2bd8016..e6f4994 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -243,18 +243,13 @@ class VolumeGridDensity(DensityRegion):
 	"""
 	def __init__(self, sig_a: 'Spectrum', sig_s: 'Spectrum', g: FLOAT, le: 'Spectrum',
 					extent: 'geo.BBox', v2w: 'trans.Transform', d: 'np.ndarray'):
-		super().__init__()
-		self.sig_a = sig_a
-		self.sig_s = sig_s
-		self.g = g
-		self.le = le
+		super().__init__(sig_a, sig_s, g, le, v2w)
 		self.extent = extent
-		self.w2v = v2w.inverse()
 		self.density = d.copy() 	# 3D np array of densities in [z][y][x] order
 
 	@property
 	def nx(self):
-		return np.shape(self.density)[0]
+		return np.shape(self.density)[2]
 
 	@property
 	def ny(self):
@@ -262,10 +257,10 @@ class VolumeGridDensity(DensityRegion):
 
 	@property
 	def nz(self):
-		return np.shape(self.density)[2]
+		return np.shape(self.density)[0]
 
 	def __D(self, x: INT, y: INT, z: INT) -> FLOAT:
-		x, y, z = np.clip([x, y, z], 0, np.shape(self.density) - 1).astype(INT)
+		x, y, z = np.clip([x, y, z], 0, [self.nx - 1, self.ny - 1, self.nz - 1]).astype(INT)
 		return self.density[z][y][x]
 	
 	def __call__(self, pnt: 'geo.Point') -> FLOAT:
@@ -274,7 +269,7 @@ class VolumeGridDensity(DensityRegion):
 
 		# compute voxel coordinates and offsets
 		vox = self.extent.offset(pnt)
-		vox *= np.shape(self.density)
+		vox *= [self.nx, self.ny, self.nz]
 		vox -= .5
 		vx = util.ftoi(vox.x)
 		vy = util.ftoi(vox.y)
-- 
2.43.0


From e6a3431ccdce25965c353841c1ec348315ba859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 012/147] fix: aggregate volume emission called a missing
 method and summed phase functions; ray time was passed as depth

---
 pytracer/volume/volume.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index e6f4994..61adbf0 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -215,14 +215,14 @@ class DensityRegion(VolumeRegion):
 	def sigma_t(self, pnt: 'geo.Point', vec: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
 		return self(self.w2v(pnt)) * (self.sig_a + self.sig_s)
 
-	def tau(self, r: 'geo.Ray', step_size: FLOAT, u: FLOAT) -> 'Spectrum':
+	def tau(self, r: 'geo.Ray', step_size: FLOAT=1., u: FLOAT=.5) -> 'Spectrum':
 		tau = Spectrum(0.
 			)
 		length = r.d.length()
 		if length == 0.:
 			return tau
 
-		rn = geo.Ray(r.o, r.d / length, r.mint * length, r.maxt * length, r.time)
+		rn = geo.Ray(r.o, r.d / length, r.mint * length, r.maxt * length, r.depth, r.time)
 		hit, t0, t1 = self.intersect_p(rn)
 		if not hit:
 			return tau
@@ -363,14 +363,18 @@ class AggregateVolume(VolumeRegion):
 	def lve(self, pnt: 'geo.Point', w: 'geo.Vector', tm: FLOAT) ->  'Spectrum':
 		s = Spectrum(0.)
 		for region in self.regions:
-			s += region.le(pnt, w, tm)
+			s += region.lve(pnt, w, tm)
 		return s		
 
 	def p(self, pnt: 'geo.Point', wi: 'geo.Vector', wo: 'geo.Vector', tm: FLOAT) ->  FLOAT:
-		s = Spectrum(0.)
+		# average of the phase functions weighted by scattering
+		ph = 0.
+		sum_wt = 0.
 		for region in self.regions:
-			s += region.p(pnt, wi, wo, tm)
-		return s		
+			wt = region.sigma_s(pnt, wi, tm).y()
+			sum_wt += wt
+			ph += wt * region.p(pnt, wi, wo, tm)
+		return ph / sum_wt if sum_wt > 0. else 0.
 
 	def tau(self, ray: 'geo.Ray', step: FLOAT=1., offset: FLOAT=.5) ->  'Spectrum':
 		s = Spectrum(0.)
-- 
2.43.0


From 566b8fff7aa0d5b19242aefb76743df000a3b15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 013/147] fix: Schlick phase function was constant and did not
 normalise

---
 pytracer/volume/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/volume/utility.py b/pytracer/volume/utility.py
index 46af7f3..712bcdd 100644
--- a/pytracer/volume/utility.py
+++ b/pytracer/volume/utility.py
@@ -49,7 +49,7 @@ def phase_hg(w: 'geo.Vector', wp: 'geo.Vector', g: FLOAT) -> FLOAT:
 def phase_schlick(w: 'geo.Vector', wp: 'geo.Vector', g: FLOAT) -> FLOAT:
 	k = 1.55 * g - .55 * g * g * g
 	kct = k * w.dot(wp)
-	return ((1. - k * k) / (1. - kct) * (1. - kct)) / (4. * PI);
+	return ((1. - k * k) / ((1. - kct) * (1. - kct))) / (4. * PI);
 
 
 # Utility Functions
-- 
2.43.0


From 64b9f9aaebbe3dab2960cd5788dce8dec1110433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 014/147] fix: printing a BSSRDF failed

---
 pytracer/volume/bssrdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/volume/bssrdf.py b/pytracer/volume/bssrdf.py
index 58ddccd..a774052 100644
--- a/pytracer/volume/bssrdf.py
+++ b/pytracer/volume/bssrdf.py
@@ -29,7 +29,7 @@ class BSSRDF(object):
 
 	def __repr__(self):
 		return "{}\nEta: {} sigma_a: {} sigma'_s: {}\n".format(self.__class__,
-						self.__sig_a, self.__sigp_s)
+						self.__e, self.__sig_a, self.__sigp_s)
 
 	@property
 	def eta(self):
-- 
2.43.0


From c9ca38be406330adc9eee6a0ac500b2a505ab761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 015/147] fix: RGBSpectrum.create failed on lists and tuples

---
 pytracer/spectral/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index afc93b4..bd688e9 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -580,7 +580,7 @@ class RGBSpectrum(CoefficientSpectrum):
 
 		elif isinstance(arg, Iterable):
 			if np.ndim(arg) == 1 and np.shape(arg)[0] == 3:
-				return np.ndarray(arg).view(cls)
+				return np.array(arg, dtype=FLOAT).view(cls)
 
 		raise TypeError('Unsupported type {} for init {}'.format(type(arg), cls))
 
-- 
2.43.0


From e9251c68422d2310422d2f01091126b05cebf06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 016/147] fix: a spectrum created from integers held integers
 and could not accumulate

---
 pytracer/spectral/spectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index bd688e9..c566757 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -49,7 +49,7 @@ class CoefficientSpectrum(np.ndarray, metaclass=ABCMeta):
 	`SampledSpectrum`
 	"""
 	def __new__(cls, n_samples: (INT, UINT), v: (FLOAT, float)=0.):
-		return np.full(n_samples, v).view(cls)
+		return np.full(n_samples, v, dtype=FLOAT).view(cls)
 
 	def __init__(self, n_samples: (INT, UINT), v: (FLOAT, float) = 0.):
 		pass
@@ -554,7 +554,7 @@ class RGBSpectrum(CoefficientSpectrum):
 	model RGB spectrum.
 	"""
 	def __new__(cls, v: FLOAT=0.):
-		return np.full(3, v).view(cls)
+		return np.full(3, v, dtype=FLOAT).view(cls)
 		# raise TypeError('Unsupported type {} while initializing {}'.format(type(v), __class__))
 
 	def __init__(self, v=0.):
-- 
2.43.0


From 491809fe37b7d3abc0030e3cedcdf2415fa8ec94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 017/147] fix: from_sampled averaged over the wrong wavelength
 interval (operator precedence)

---
 pytracer/spectral/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index c566757..3af0865 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -421,7 +421,7 @@ class SampledSpectrum(CoefficientSpectrum):
 		self = cls()
 		for i in range(N_SPECTRAL_SAMPLES):
 			l0 = util.lerp(i / N_SPECTRAL_SAMPLES, SAMPLED_LAMBDA_START, SAMPLED_LAMBDA_END)
-			l1 = util.lerp(i+1 / N_SPECTRAL_SAMPLES, SAMPLED_LAMBDA_START, SAMPLED_LAMBDA_END)
+			l1 = util.lerp((i + 1) / N_SPECTRAL_SAMPLES, SAMPLED_LAMBDA_START, SAMPLED_LAMBDA_END)
 			self[i] = cls.average_spectrum_samples(lam, v, l0, l1)
 
 		return self
-- 
2.43.0


From d1c79e842ded962af1a8859503e232e74faf0d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 018/147] fix: averaging up to a tabulated wavelength
 integrated to the end of the table

---
 pytracer/spectral/spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index 3af0865..c315c87 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -470,7 +470,7 @@ class SampledSpectrum(CoefficientSpectrum):
 			bk_lam_lo = lam[idx_lo]
 			bk_v_lo = v[idx_lo]
 
-		if idx_hi < len(lam) and lam[idx_hi] != le:
+		if idx_hi < len(lam):
 			bk_lam_hi = lam[idx_hi]
 			bk_v_hi = v[idx_hi]
 			v[idx_hi] = util.lerp((bk_lam_hi - le) / (lam[idx_hi] - lam[idx_hi-1]), v[idx_hi], v[idx_hi-1])
-- 
2.43.0


From cd66c78ae2b7dd3c0476e9deec8444f2020681ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 019/147] fix: spectrum averaging wrote into the caller's
 tables and truncated end points of integer tables

---
 pytracer/spectral/spectrum.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index c315c87..a5f9892 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -440,6 +440,10 @@ class SampledSpectrum(CoefficientSpectrum):
 		NB: boundary values are used to extropolate
 		out-of-bound values
 		"""
+		# end points are patched in below, work on copies
+		lam = np.array(lam, dtype=FLOAT)
+		v = np.array(v, dtype=FLOAT)
+
 		# out-of-bound or single sample
 		if le <= lam[0]:
 			return v[0]
-- 
2.43.0


From 6e9e08737769edf4cef1a715ac63462d0744a04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:43 +0000
Subject: [PATCH 020/147] fix: RGB to sampled spectrum conversion picked
 swapped basis spectra when green or blue is lowest

---
 pytracer/spectral/spectrum.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index a5f9892..ea47d5c 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -506,9 +506,9 @@ class SampledSpectrum(CoefficientSpectrum):
 			if lo == 0:
 				spec = [cls.rgbRefl2SpectCyan, cls.rgbRefl2SpectGreen, cls.rgbRefl2SpectBlue]
 			elif lo == 1:
-				spec = [cls.rgbRefl2SpectMagenta, cls.rgbRefl2SpectRed, cls.rgbRefl2SpectBlue]
+				spec = [cls.rgbRefl2SpectRed, cls.rgbRefl2SpectMagenta, cls.rgbRefl2SpectBlue]
 			else:
-				spec = [cls.rgbRefl2SpectYellow, cls.rgbRefl2SpectRed, cls.rgbRefl2SpectGreen]
+				spec = [cls.rgbRefl2SpectRed, cls.rgbRefl2SpectGreen, cls.rgbRefl2SpectYellow]
 
 			self += rgb[lo] * cls.rgbRefl2SpectWhite
 			self += (rgb[me] - rgb[lo]) * spec[lo]
@@ -521,9 +521,9 @@ class SampledSpectrum(CoefficientSpectrum):
 			if lo == 0:
 				spec = [cls.rgbIllum2SpectCyan, cls.rgbIllum2SpectGreen, cls.rgbIllum2SpectBlue]
 			elif lo == 1:
-				spec = [cls.rgbIllum2SpectMagenta, cls.rgbIllum2SpectRed, cls.rgbIllum2SpectBlue]
+				spec = [cls.rgbIllum2SpectRed, cls.rgbIllum2SpectMagenta, cls.rgbIllum2SpectBlue]
 			else:
-				spec = [cls.rgbIllum2SpectYellow, cls.rgbIllum2SpectRed, cls.rgbIllum2SpectGreen]
+				spec = [cls.rgbIllum2SpectRed, cls.rgbIllum2SpectGreen, cls.rgbIllum2SpectYellow]
 
 			self += rgb[lo] * cls.rgbIllum2SpectWhite
 			self += (rgb[me] - rgb[lo]) * spec[lo]
-- 
2.43.0


From d5db26fffb1f620aeab8876545b95a3325843cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 021/147] fix: BBox inequality compared pMin with pMax in its
 second half, too

---
 pytracer/geometry/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/geometry/__init__.py b/pytracer/geometry/__init__.py
index 7173f3f..6609adf 100644
--- a/pytracer/geometry/__init__.py
+++ b/pytracer/geometry/__init__.py
@@ -426,7 +426,7 @@ class BBox:
 
 	def __ne__(self, other):
 		return not np.array_equal(self.pMin, other.pMin) or \
-		       not np.array_equal(self.pMin, other.pMax)
+		       not np.array_equal(self.pMax, other.pMax)
 
 	def __getitem__(self, key):
 		if key == 0:
-- 
2.43.0


From 67a441adc57aad078260e70b6f9e84b01401baa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 022/147] fix: rays lying in a box face with a negative zero
 direction component missed the box

---
 pytracer/geometry/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/geometry/__init__.py b/pytracer/geometry/__init__.py
index 6609adf..4e80cd6 100644
--- a/pytracer/geometry/__init__.py
+++ b/pytracer/geometry/__init__.py
@@ -588,9 +588,9 @@ class BBox:
 		if intersects.
 		"""
 		t0, t1 = r.mint, r.maxt
-		# automatically convert /0. to np.inf
-		t_near = np.true_divide((self.pMin - r.o), r.d)
-		t_far = np.true_divide((self.pMax - r.o), r.d)
+		# automatically convert /0. to np.inf (adding 0. turns -0. into 0.)
+		t_near = np.true_divide((self.pMin - r.o), r.d + 0.)
+		t_far = np.true_divide((self.pMax - r.o), r.d + 0.)
 		if isinstance(t0, RayDifferential) or isinstance(t_near[0], RayDifferential):
 			a = 1
 			b = 2
-- 
2.43.0


From 683287f0a6a0a8f2ba617f04039500557b2de4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 023/147] fix: disks placed under a scaling transform missed
 rays (parallel test was on the unnormalised direction)

---
 pytracer/shape/disk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/shape/disk.py b/pytracer/shape/disk.py
index 31243b9..17c0a86 100644
--- a/pytracer/shape/disk.py
+++ b/pytracer/shape/disk.py
@@ -67,7 +67,7 @@ class Disk(Shape):
 		ray = self.w2o(r)
 
 		# parallel ray has not intersection
-		if np.fabs(ray.d.z) < EPS:
+		if ray.d.z == 0.:
 			return [False, None, None, None]
 
 		thit = (self.height - ray.o.z) / ray.d.z
@@ -116,7 +116,7 @@ class Disk(Shape):
 		ray = self.w2o(r)
 
 		# parallel ray has not intersection
-		if np.fabs(ray.d.z) < EPS:
+		if ray.d.z == 0.:
 			return False
 
 		thit = (self.height - ray.o.z) / ray.d.z
-- 
2.43.0


From 7ba139fbde81e43d6ecc4bf6235cad9e10ea07f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 024/147] fix: disk v coordinate subtracted the inner radius
 from the squared distance

---
 pytracer/shape/disk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/disk.py b/pytracer/shape/disk.py
index 17c0a86..8d03f08 100644
--- a/pytracer/shape/disk.py
+++ b/pytracer/shape/disk.py
@@ -93,7 +93,7 @@ class Disk(Shape):
 		# otherwise ray hits the disk
 		# initialize the differential structure
 		u = phi / self.phiMax
-		v = 1. - ((np.sqrt(dt2 - self.inner_radius)) /
+		v = 1. - ((np.sqrt(dt2) - self.inner_radius) /
 		          (self.radius - self.inner_radius))
 
 		# find derivatives
-- 
2.43.0


From 712259b9fb6b1af9c55ec6237d6ac8256cf051ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 025/147] fix: disk position derivatives were not the
 derivatives of its parametrisation (and undefined at the centre)

---
 pytracer/shape/disk.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pytracer/shape/disk.py b/pytracer/shape/disk.py
index 8d03f08..ecfb9da 100644
--- a/pytracer/shape/disk.py
+++ b/pytracer/shape/disk.py
@@ -97,10 +97,12 @@ class Disk(Shape):
 		          (self.radius - self.inner_radius))
 
 		# find derivatives
+		if dt2 == 0.:
+			phit.x = EPS * self.radius
+		dist = np.sqrt(phit.x * phit.x + phit.y * phit.y)
 		dpdu = geo.Vector(-self.phiMax * phit.y, self.phiMax * phit.x, 0.)
-		dpdv = geo.Vector(-phit.x / (1. - v), -phit.y / (1. - v), 0.)
-		dpdu *= self.phiMax * INV_2PI
-		dpdv *= (self.radius - self.inner_radius) / self.radius
+		dpdv = geo.Vector(-phit.x / dist, -phit.y / dist, 0.)
+		dpdv *= self.radius - self.inner_radius
 
 		# derivative of geo.Normals
 		dndu = geo.Normal(0., 0., 0., )
-- 
2.43.0


From 098f2954ee99bf52b26d4e90a3072a99a10a63bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 026/147] fix: disk sampling ignored the angular sweep for half
 the samples, was not uniform on annuli and returned the position as normal

---
 pytracer/shape/disk.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pytracer/shape/disk.py b/pytracer/shape/disk.py
index ecfb9da..5b207fd 100644
--- a/pytracer/shape/disk.py
+++ b/pytracer/shape/disk.py
@@ -44,12 +44,16 @@ class Disk(Shape):
 		# account for partial disk
 		from pytracer.montecarlo import concentric_sample_disk
 		x, y = concentric_sample_disk(u1, u2)
-		phi = np.arctan2(y, x) * self.phiMax * INV_2PI
-		r = self.inner_radius + np.sqrt(x * x + y * y) * (self.radius - self.inner_radius)
+		phi = np.arctan2(y, x)
+		if phi < 0.:
+			phi += 2. * np.pi
+		phi *= self.phiMax * INV_2PI
+		ri_sq = self.inner_radius * self.inner_radius
+		r = np.sqrt(ri_sq + (x * x + y * y) * (self.radius * self.radius - ri_sq))
 
 		p = geo.Point(r * np.cos(phi), r * np.sin(phi), self.height)
 
-		Ns = geo.normalize(self.o2w(p))
+		Ns = geo.normalize(self.o2w(geo.Normal(0., 0., 1.)))
 		if self.ro:
 			Ns *= -1.
 
-- 
2.43.0


From 59c5a353d8e85e75bc052462473b900ef254d00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 027/147] fix: Cylinder could not be instantiated (abstract
 refine) and read a non-existing thetaMax

---
 pytracer/shape/cylinder.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pytracer/shape/cylinder.py b/pytracer/shape/cylinder.py
index 29a9279..b4fab3e 100644
--- a/pytracer/shape/cylinder.py
+++ b/pytracer/shape/cylinder.py
@@ -106,7 +106,7 @@ class Cylinder(Shape):
 		# otherwise ray hits the cylinder
 		# initialize the differential structure
 		u = phi / self.phiMax
-		v = (phit.z - self.zmin) / (self.thetaMax - self.thetaMin)
+		v = (phit.z - self.zmin) / (self.zmax - self.zmin)
 
 		# find derivatives
 		dpdu = geo.Vector(-self.phiMax * phit.y, self.phiMax * phit.x, 0.)
@@ -190,3 +190,11 @@ class Cylinder(Shape):
 
 	def area(self) -> FLOAT:
 		return self.phiMax * self.radius * (self.zmax - self.zmin)
+
+	def refine(self) -> ['Shape']:
+		"""
+		If `Shape` cannot intersect,
+		return a refined subset
+		"""
+		raise NotImplementedError('Intersecable shapes are not refineable')
+
-- 
2.43.0


From daa4f57ce5e7baaa9f047e7343588cf346a82dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 028/147] fix: sphere occlusion test printed debugging output

---
 pytracer/shape/sphere.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index df35a5f..4034b61 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -249,7 +249,6 @@ class Sphere(Shape):
 				return False
 
 		phit = ray(thit)
-		print("Type phit: {}\nphit.x: {}\nphit.y: {}\n".format(type(phit), type(phit.x), type(phit.y)))
 		if phit.x == 0. and phit.y == 0.:
 			phit.x = EPS * self.radius
 		phi = np.arctan2(phit.y, phit.x)
-- 
2.43.0


From 019340791e11458ca90ea2d5ff9de0be89ded55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 029/147] fix: sphere v coordinate was multiplied, not divided,
 by the theta range

---
 pytracer/shape/sphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index 4034b61..d202d88 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -187,7 +187,7 @@ class Sphere(Shape):
 		u = phi / self.phiMax
 		theta = np.arccos(np.clip(phit.z / self.radius, -1., 1.))
 		delta_theta = self.thetaMax - self.thetaMin
-		v = (theta - self.thetaMin) * delta_theta
+		v = (theta - self.thetaMin) / delta_theta
 
 		# find derivatives
 		dpdu = geo.Vector(-self.phiMax * phit.y, self.phiMax * phit.x, 0.)
-- 
2.43.0


From 198f6d440c71a884cd0f16d6cc501a9ba6c62add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 030/147] fix: small or far scaled spheres were missed because
 the discriminant was compared with an absolute tolerance

---
 pytracer/shape/sphere.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index d202d88..c28d560 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -139,7 +139,7 @@ class Sphere(Shape):
 		C = ray.o.sq_length() - self.radius * self.radius
 
 		D = B * B - 4. * A * C
-		if D <= 0. + EPS:
+		if D <= 0.:
 			return [False, None, None, None]
 
 		# validate solutions
@@ -233,7 +233,7 @@ class Sphere(Shape):
 		C = ray.o.sq_length() - self.radius * self.radius
 
 		D = B * B - 4. * A * C
-		if D <= 0. + EPS:
+		if D <= 0.:
 			return False
 
 		# validate solutions
-- 
2.43.0


From 7bf719814c1d4826b2bb801288b683fe4fd57c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 031/147] fix: quadric roots lost all accuracy (or came out
 complex) when the ray origin is far away

---
 pytracer/shape/cylinder.py | 6 ++++--
 pytracer/shape/sphere.py   | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pytracer/shape/cylinder.py b/pytracer/shape/cylinder.py
index b4fab3e..71c724c 100644
--- a/pytracer/shape/cylinder.py
+++ b/pytracer/shape/cylinder.py
@@ -70,7 +70,8 @@ class Cylinder(Shape):
 			return [False, None, None, None]
 
 		# validate solutions
-		[t0, t1] = np.roots([A, B, C])
+		q = -.5 * (B + np.copysign(np.sqrt(D), B))
+		t0, t1 = q / A, C / q
 		if t0 > t1:
 			t0, t1 = t1, t0
 		if t0 > ray.maxt or t1 < ray.mint:
@@ -153,7 +154,8 @@ class Cylinder(Shape):
 			return False
 
 		# validate solutions
-		[t0, t1] = np.roots([A, B, C])
+		q = -.5 * (B + np.copysign(np.sqrt(D), B))
+		t0, t1 = q / A, C / q
 		if t0 > t1:
 			t0, t1 = t1, t0
 		if t0 > ray.maxt or t1 < ray.mint:
diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index c28d560..312d086 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -143,7 +143,8 @@ class Sphere(Shape):
 			return [False, None, None, None]
 
 		# validate solutions
-		[t0, t1] = np.roots([A, B, C])
+		q = -.5 * (B + np.copysign(np.sqrt(D), B))
+		t0, t1 = q / A, C / q
 		if t0 > t1:
 			t0, t1 = t1, t0
 		if t0 > ray.maxt or t1 < ray.mint:
@@ -237,7 +238,8 @@ class Sphere(Shape):
 			return False
 
 		# validate solutions
-		[t0, t1] = np.roots([A, B, C])
+		q = -.5 * (B + np.copysign(np.sqrt(D), B))
+		t0, t1 = q / A, C / q
 		if t0 > t1:
 			t0, t1 = t1, t0
 		if t0 > ray.maxt or t1 < ray.mint:
-- 
2.43.0


From bd4f0cdef8dd91add629ad799ee6a85260a49c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 032/147] fix: sphere sampling returned points off the sphere

---
 pytracer/shape/sphere.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index 312d086..f89ead3 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -44,16 +44,12 @@ class Sphere(Shape):
 		"""
 		account for partial sphere
 		"""
-		from pytracer.montecarlo import uniform_sample_sphere
-		v = uniform_sample_sphere(u1, u2)
+		# area is proportional to height
+		phi = u2 * self.phiMax
+		z = util.lerp(u1, self.zmin, self.zmax)
+		r = np.sqrt(max(0., self.radius * self.radius - z * z))
 
-		phi = geo.spherical_theta(v) * self.phiMax * INV_2PI
-		theta = self.thetaMin + geo.spherical_theta(v) * (self.thetaMax - self.thetaMin)
-
-		v = geo.spherical_direction(np.sin(theta), np.cos(theta), phi) * self.radius
-		v.z = self.zmin + v.z * (self.zmax - self.zmin)
-
-		p = geo.Point.from_arr(v)
+		p = geo.Point(r * np.cos(phi), r * np.sin(phi), z)
 		Ns = geo.normalize(self.o2w(geo.Normal(p.x, p.y, p.z)))
 		if self.ro:
 			Ns *= -1.
-- 
2.43.0


From a557cf1f863fedd2fe92041d83dd5b69ce92a487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 033/147] fix: sampling a partial sphere from a point returned
 points off its surface, with the density of the full sphere

---
 pytracer/shape/sphere.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pytracer/shape/sphere.py b/pytracer/shape/sphere.py
index f89ead3..dde3f95 100644
--- a/pytracer/shape/sphere.py
+++ b/pytracer/shape/sphere.py
@@ -64,6 +64,9 @@ class Sphere(Shape):
 	# 	Ns *= -1.
 	# return [self.o2w(p), Ns]
 
+	def _is_partial(self) -> bool:
+		return self.zmin > -self.radius or self.zmax < self.radius or self.phiMax < 2. * np.pi
+
 	def refine(self) -> ['Shape']:
 		"""
 		If `Shape` cannot intersect,
@@ -83,7 +86,7 @@ class Sphere(Shape):
 		_, wc_x, wc_y = geo.coordinate_system(wc)
 
 		# sample uniformly if p is inside
-		if pnt.sq_dist(ctr) - self.radius * self.radius < EPS:
+		if self._is_partial() or pnt.sq_dist(ctr) - self.radius * self.radius < EPS:
 			return self.sample(u1, u2)
 
 		# sample inside subtended cone
@@ -108,7 +111,7 @@ class Sphere(Shape):
 	def pdf_p(self, pnt: 'geo.Point', wi: 'geo.Vector') -> FLOAT:
 		ctr = self.o2w(geo.Point(0., 0., 0.))
 		# return uniform weight if inside
-		if pnt.sq_dist(ctr) - self.radius * self.radius < EPS:
+		if self._is_partial() or pnt.sq_dist(ctr) - self.radius * self.radius < EPS:
 			return super().pdf_p(pnt, wi)
 
 		# general weight
-- 
2.43.0


From bd9303908f776144f521a243acf9f10aceeab303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 034/147] fix: triangle sampling used the vertex following the
 first one's index instead of the second vertex

---
 pytracer/shape/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index 7382a8d..dfecf2b 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -148,7 +148,7 @@ class Triangle(Shape):
 		b1, b2 = uniform_sample_triangle(u1, u2)
 
 		p = b1 * self.mesh.p[self.mesh.vertexIndex[self.v]] + \
-		    b2 * self.mesh.p[self.mesh.vertexIndex[self.v]+1] + \
+		    b2 * self.mesh.p[self.mesh.vertexIndex[self.v+1]] + \
 		    (1. - b1 - b2) * self.mesh.p[self.mesh.vertexIndex[self.v+2]]
 
 		Ns = geo.normalize(geo.Normal.from_arr(
-- 
2.43.0


From d6103864c775b2f98d03c1d22eb1e47a66b20d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 035/147] fix: sampled triangle normals disagreed with hit
 normals under mirroring transforms

---
 pytracer/shape/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index dfecf2b..350d409 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -155,7 +155,7 @@ class Triangle(Shape):
 			(self.mesh.p[self.mesh.vertexIndex[self.v+1]] - self.mesh.p[self.mesh.vertexIndex[self.v]]) \
 				.cross(self.mesh.p[self.mesh.vertexIndex[self.v+2]] - self.mesh.p[self.mesh.vertexIndex[self.v]])))
 
-		if self.ro:
+		if self.ro ^ self.transform_swaps_handedness:
 			Ns *= -1.
 
 		return [p, Ns]
-- 
2.43.0


From ff31cd1b930ac77f5761d3458fe95ba8d5baa668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 036/147] fix: triangle texture coordinates, normals and
 tangents were looked up by triangle number, not by vertex index

---
 pytracer/shape/triangle.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index 350d409..ca20680 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -126,9 +126,8 @@ class Triangle(Shape):
 		if self.mesh.uvs is None:
 			return [[0., 0.], [1., 0.], [1., 1.]]  # default
 		else:
-			return [[self.mesh.uvs[2 * self.v], self.mesh.uvs[2 * self.v + 1]],
-			        [self.mesh.uvs[2 * (self.v + 1)], self.mesh.uvs[2 * (self.v + 1) + 1]],
-			        [self.mesh.uvs[2 * (self.v + 2)], self.mesh.uvs[2 * (self.v + 2) + 1]]]
+			return [[self.mesh.uvs[2 * i], self.mesh.uvs[2 * i + 1]]
+			        for i in self.mesh.vertexIndex[self.v:self.v + 3]]
 
 	def object_bound(self) -> 'geo.BBox':
 		p1 = self.mesh.p[self.mesh.vertexIndex[self.v]]
@@ -340,16 +339,16 @@ class Triangle(Shape):
 
 		# compute shading tangents
 		if self.mesh.n is not None:
-			ns = geo.normalize(o2w(b[0] * self.mesh.n[self.v] +
-			                   b[1] * self.mesh.n[self.v + 1] +
-			                   b[2] * self.mesh.n[self.v + 2]))
+			ns = geo.normalize(o2w(b[0] * self.mesh.n[self.mesh.vertexIndex[self.v]] +
+			                   b[1] * self.mesh.n[self.mesh.vertexIndex[self.v + 1]] +
+			                   b[2] * self.mesh.n[self.mesh.vertexIndex[self.v + 2]]))
 		else:
 			ns = dg.nn
 
 		if self.mesh.s is not None:
-			ss = geo.normalize(o2w(b[0] * self.mesh.s[self.v] +
-			                   b[1] * self.mesh.s[self.v + 1] +
-			                   b[2] * self.mesh.s[self.v + 2]))
+			ss = geo.normalize(o2w(b[0] * self.mesh.s[self.mesh.vertexIndex[self.v]] +
+			                   b[1] * self.mesh.s[self.mesh.vertexIndex[self.v + 1]] +
+			                   b[2] * self.mesh.s[self.mesh.vertexIndex[self.v + 2]]))
 		else:
 			ss = geo.normalize(dg.dpdu)
 
-- 
2.43.0


From d342d1e729c962a293704eb69be4f45ef0da20dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 037/147] fix: shading geometry ignored per-vertex normals
 unless tangents were given as well, and vice versa

---
 pytracer/shape/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index ca20680..535325d 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -321,7 +321,7 @@ class Triangle(Shape):
 
 	def get_shading_geometry(self, o2w: 'trans.Transform',
 	                         dg: 'geo.DifferentialGeometry') -> 'geo.DifferentialGeometry':
-		if self.mesh.n is None or self.mesh.s is None:
+		if self.mesh.n is None and self.mesh.s is None:
 			return dg
 		# compute barycentric coord
 		uvs = self.get_uvs()
-- 
2.43.0


From faff4cb64a0821d5c95de387d896c8824bd6a0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 038/147] fix: alpha-masked triangles failed on every hit
 (textures are called, not evaluated)

---
 pytracer/shape/triangle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index 535325d..2237ea9 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -235,7 +235,7 @@ class Triangle(Shape):
 
 		if self.mesh.alphaTexture is not None:
 			# alpha mask presents
-			if self.mesh.alphaTexture.evaluate(dg) == 0.:
+			if self.mesh.alphaTexture(dg) == 0.:
 				return [False, None, None, None]
 
 		# have a hit
@@ -307,7 +307,7 @@ class Triangle(Shape):
 
 		if self.mesh.alphaTexture is not None:
 			# alpha mask presents
-			if self.mesh.alphaTexture.evaluate(dg) == 0.:
+			if self.mesh.alphaTexture(dg) == 0.:
 				return False
 
 		# have a hit
-- 
2.43.0


From 86fdbd065c0845a01676b1b1050047e4be409b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 039/147] fix: create_triangle_mesh crashed on missing indices
 or positions instead of returning None, and accepted negative indices

---
 pytracer/shape/triangle.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index 2237ea9..4fbf1df 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -26,6 +26,9 @@ def create_triangle_mesh(o2w: 'trans.Transform', w2o: 'trans.Transform',
 		uvs = None if 'st' not in params else params['st']
 	discard = False if 'discard' not in params else params['discard']
 
+	if vi is None or p is None:
+		return None
+
 	if len(vi) % 3 != 0:
 		raise RuntimeError
 
@@ -81,7 +84,7 @@ def create_triangle_mesh(o2w: 'trans.Transform', w2o: 'trans.Transform',
 				nuvi = 0
 				break
 	for i in vi:
-		if i >= npi:
+		if i < 0 or i >= npi:
 			raise RuntimeError('src.core.shape.create_triangle_mesh(): mesh has out of-boundes vertex index')
 
 	alphaTex = None
-- 
2.43.0


From f1cfa90ae8c2d094989292b2791b3359617d6773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 040/147] fix: copying a DifferentialGeometry lost its normal
 and its screen-space differentials

---
 pytracer/geometry/diffgeom.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pytracer/geometry/diffgeom.py b/pytracer/geometry/diffgeom.py
index 447879e..8d97871 100644
--- a/pytracer/geometry/diffgeom.py
+++ b/pytracer/geometry/diffgeom.py
@@ -45,7 +45,13 @@ class DifferentialGeometry(object):
 		return "{}\nNormal Vector: {}\n".format(self.__class__, self.nn)
 
 	def copy(self):
-		return DifferentialGeometry(self.p, self.dpdu, self.dpdv, self.dndu, self.dndv, self.u, self.v, self.shape)
+		dg = DifferentialGeometry(self.p, self.dpdu, self.dpdv, self.dndu, self.dndv, self.u, self.v, self.shape)
+		dg.nn = self.nn.copy()
+		dg.dudx, dg.dvdx = self.dudx, self.dvdx
+		dg.dudy, dg.dvdy = self.dudy, self.dvdy
+		dg.dpdx = self.dpdx.copy()
+		dg.dpdy = self.dpdy.copy()
+		return dg
 
 	def compute_differential(self, ray: 'RayDifferential'):
 		if ray.has_differentials:
-- 
2.43.0


From 4941db054a3864fa3460dd8441c0bb6484eb171f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 041/147] fix: the BVH middle split could put every primitive
 on one side and abort

---
 pytracer/aggregate/accelerator/bvh.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytracer/aggregate/accelerator/bvh.py b/pytracer/aggregate/accelerator/bvh.py
index 852c5e6..527c65c 100644
--- a/pytracer/aggregate/accelerator/bvh.py
+++ b/pytracer/aggregate/accelerator/bvh.py
@@ -117,7 +117,7 @@ class BVH(Aggregate):
 			else:
 				data[i], data[k] = data[k], data[i]
 				k -= 1
-		return k
+		return k + 1 if data[k].centroid[dim] < mid else k
 
 	@staticmethod
 	def _insertion_sort(data: ['BVH._BVHPrimitive'], start: INT, end: INT, dim: INT):
@@ -206,6 +206,10 @@ class BVH(Aggregate):
 			if self.split_method == BVH.SplitMethod.MIDDLE:
 				pmid = .5 * (centroid_bounds.pMax[dim] + centroid_bounds.pMin[dim])
 				mid = BVH._partition(data, start, end, pmid, dim)
+				if mid == start or mid == end:
+					# adjacent centroids, midpoint rounded to one of them
+					mid = (start + end) // 2
+					BVH._insertion_sort(data, start, end, dim)
 
 			else:
 				# surface area heuristic
-- 
2.43.0


From ce40c3b5c660fbad9da54d976aaeea083cb163c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 042/147] fix: BVH leaves with more than four overlapping
 primitives raised TypeError

---
 pytracer/aggregate/accelerator/bvh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/aggregate/accelerator/bvh.py b/pytracer/aggregate/accelerator/bvh.py
index 527c65c..df4eb0f 100644
--- a/pytracer/aggregate/accelerator/bvh.py
+++ b/pytracer/aggregate/accelerator/bvh.py
@@ -264,7 +264,7 @@ class BVH(Aggregate):
 					else:
 						first = len(ordered_prims)
 						for i in range(start, end):
-							ordered_prims.append(self.primitives[data[i]].prim_idx)
+							ordered_prims.append(self.primitives[data[i].prim_idx])
 						node.init_leaf(first, n_prim, bbox)
 						return node
 
-- 
2.43.0


From 2bd7d83b7aca687a4d0ce01a8b2a814fc16a0946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 043/147] fix: the BVH 'equal' split method did not exist

---
 pytracer/aggregate/accelerator/bvh.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pytracer/aggregate/accelerator/bvh.py b/pytracer/aggregate/accelerator/bvh.py
index df4eb0f..dd8082e 100644
--- a/pytracer/aggregate/accelerator/bvh.py
+++ b/pytracer/aggregate/accelerator/bvh.py
@@ -25,7 +25,7 @@ class BVH(Aggregate):
 	"""BVH Class"""
 	class SplitMethod(Enum):
 		MIDDLE = 0
-		# EQUAL_COUNTS = 1  # coming soon
+		EQUAL_COUNTS = 1
 		SAH = 2
 
 	class _BVHPrimitive(object):
@@ -211,6 +211,10 @@ class BVH(Aggregate):
 					mid = (start + end) // 2
 					BVH._insertion_sort(data, start, end, dim)
 
+			elif self.split_method == BVH.SplitMethod.EQUAL_COUNTS:
+				mid = (start + end) // 2
+				BVH._insertion_sort(data, start, end, dim)
+
 			else:
 				# surface area heuristic
 				if n_prim <= 4:
-- 
2.43.0


From 25d848158118cac1a2bb1446d4b55187be096ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 044/147] fix: BVH traversal overflowed its fixed stack on deep
 trees

---
 pytracer/aggregate/accelerator/bvh.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pytracer/aggregate/accelerator/bvh.py b/pytracer/aggregate/accelerator/bvh.py
index dd8082e..1d110f0 100644
--- a/pytracer/aggregate/accelerator/bvh.py
+++ b/pytracer/aggregate/accelerator/bvh.py
@@ -104,7 +104,7 @@ class BVH(Aggregate):
 
 		# DFS of BVH
 		self.nodes = [BVH._LinearNode() for _ in range(segment[2])]
-		self._flatten_tree(root, [0])
+		self.depth = self._flatten_tree(root, [0])[1]
 
 	@staticmethod
 	def _partition(data: ['BVH._BVHPrimitive'], start: INT, end: INT, mid: FLOAT, dim: INT):
@@ -295,10 +295,11 @@ class BVH(Aggregate):
 		else:
 			linear_node.axis = node.split_axis
 			linear_node.n_prim = 0
-			self._flatten_tree(node.children[0], offset)
-			linear_node.offset = self._flatten_tree(node.children[1], offset)
-		
-		return off
+			_, depth = self._flatten_tree(node.children[0], offset)
+			linear_node.offset, depth_1 = self._flatten_tree(node.children[1], offset)
+			return off, 1 + max(depth, depth_1)
+
+		return off, 1
 	
 	@staticmethod
 	def _intersect_p(bounds: geo.BBox, ray: geo.Ray, inv_dir: geo.Vector, dir_neg: [bool]) -> bool:
@@ -337,7 +338,7 @@ class BVH(Aggregate):
 		
 		todo_idx = 0
 		node_idx = 0
-		todo = [None] * 64
+		todo = [None] * max(64, self.depth)
 		while True:
 			node = self.nodes[node_idx]
 			# check intersection
@@ -382,7 +383,7 @@ class BVH(Aggregate):
 
 		todo_idx = 0
 		node_idx = 0
-		todo = [None] * 64
+		todo = [None] * max(64, self.depth)
 		while True:
 			node = self.nodes[node_idx]
 			# check intersection
-- 
2.43.0


From 39ab939dab866a6d291214fc8468b2bfc0a00a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 045/147] fix: BVH slab test missed axis-parallel rays on a box
 face or with a negative zero direction component

---
 pytracer/aggregate/accelerator/bvh.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pytracer/aggregate/accelerator/bvh.py b/pytracer/aggregate/accelerator/bvh.py
index 1d110f0..1fca4c0 100644
--- a/pytracer/aggregate/accelerator/bvh.py
+++ b/pytracer/aggregate/accelerator/bvh.py
@@ -308,7 +308,13 @@ class BVH(Aggregate):
 		tmax = (bounds[1-dir_neg[0]].x - ray.o.x) * inv_dir.x
 		tmin_y = (bounds[dir_neg[1]].y - ray.o.y) * inv_dir.y
 		tmax_y = (bounds[1 - dir_neg[1]].y - ray.o.y) * inv_dir.y
-		
+
+		# 0 * inf: parallel to and inside the slab's face, no constraint
+		if tmin != tmin:
+			tmin = -np.inf
+		if tmax != tmax:
+			tmax = np.inf
+
 		if tmin > tmax_y or tmin_y > tmax:
 			return False
 		if tmin_y > tmin:
@@ -326,14 +332,14 @@ class BVH(Aggregate):
 		if tmax_z < tmax:
 			tmax = tmax_z
 	
-		return tmin < ray.maxt and tmax > ray.mint
+		return tmin <= ray.maxt and tmax >= ray.mint
 
 	def intersect(self, ray: 'geo.Ray', isect: 'Intersection') -> bool:
 		from pytracer.aggregate.accelerator.bvh import BVH
 		if self.nodes is None:
 			return False
 		hit = False
-		inv_dir = 1. / ray.d
+		inv_dir = 1. / (ray.d + 0.)     # no negative zeros
 		dir_neg = ray.d < 0.
 		
 		todo_idx = 0
@@ -378,7 +384,7 @@ class BVH(Aggregate):
 		if self.nodes is None:
 			return False
 		origin = ray(ray.mint)
-		inv_dir = 1. / ray.d
+		inv_dir = 1. / (ray.d + 0.)     # no negative zeros
 		dir_neg = ray.d < 0.
 
 		todo_idx = 0
-- 
2.43.0


From 9edce9b92a0e58921c5ce5f93dad67fa7784196d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 046/147] fix: list aggregate rejected nearer hits found after
 a farther one

---
 pytracer/aggregate/aggregate.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index 029c9a2..cd76bb3 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -81,10 +81,6 @@ class SimpleAggregate(Aggregate):
 		mint = np.inf
 		for pr in self.primitives:
 			if pr.intersect(ray, tmp):
-				t0 = max(t0, ray.maxt)
-				t1 = min(t1, ray.maxt)
-				if t0 > t1:
-					continue
 				any_hit = True
 				if ray.maxt < mint:
 					mint = ray.maxt
-- 
2.43.0


From 308946810afc81053ff3f406b733479d8a556cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 047/147] fix: grid construction failed on empty, flat and
 point-like collections

---
 pytracer/aggregate/aggregate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index cd76bb3..98a534c 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -182,9 +182,12 @@ class GridAccel(Aggregate):
 		for prim in self.primitives:
 			self.bounds.union(prim.world_bound())
 
+		if len(self.primitives) == 0:
+			return
+
 		delta = self.bounds.pMax - self.bounds.pMin
 		max_axis = self.bounds.maximum_extent()
-		inv_max_width = 1. / delta[max_axis]
+		inv_max_width = 0. if delta[max_axis] == 0. else 1. / delta[max_axis]
 		cube_root = 3. * np.power(len(self.primitives), 1. / 3.)
 		voxels_per_unit_dist = cube_root * inv_max_width
 
-- 
2.43.0


From 3987abe31b36adffceab9af0b57a9b00e7eb7265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 048/147] fix: grid traversal computed voxel crossings with a
 precedence error, from the ray origin instead of the entry point, and failed
 on axis-parallel rays

---
 pytracer/aggregate/aggregate.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index 98a534c..8d7b45b 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -248,10 +248,8 @@ class GridAccel(Aggregate):
 
 	def intersect(self, ray: 'geo.Ray', isect: 'Intersection') -> bool:
 		# Check ray aginst overall bounds
-		ray_t = 0.
-		if self.bounds.inside(ray(ray.mint)):
-			ray_t = ray.mint
-		elif not self.bounds.intersect_p(ray)[0]:
+		hit, ray_t, _ = self.bounds.intersect_p(ray)
+		if not hit:
 			return False
 
 		grid_intersect = ray(ray_t)
@@ -263,16 +261,17 @@ class GridAccel(Aggregate):
 
 		pos = [self.pos2voxel(grid_intersect, axis) for axis in range(3)]
 
-		next_crossing = [ray_t + self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis] / ray.d[axis] \
+		next_crossing = [np.inf if ray.d[axis] == 0. else
+		                 ray_t + (self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis]) / ray.d[axis] \
 		                 for axis in range(3)]
-		delta_t = self.width / ray.d
+		delta_t = [np.inf if ray.d[axis] == 0. else self.width[axis] / ray.d[axis] for axis in range(3)]
 		step = np.full(3, 1)
 		out = self.n_voxels.copy()
 		for axis in range(3):
 			# compute current voxel
 			if ray.d[axis] < 0:
 				# ray with neg. direction for stepping
-				next_crossing[axis] = ray_t + self.voxel2pos(pos[axis], axis) - grid_intersect[axis] / ray.d[axis]
+				next_crossing[axis] = ray_t + (self.voxel2pos(pos[axis], axis) - grid_intersect[axis]) / ray.d[axis]
 				delta_t[axis] *= -1
 				step[axis] = -1
 				out[axis] = -1
@@ -298,10 +297,8 @@ class GridAccel(Aggregate):
 
 	def intersect_p(self, ray: 'geo.Ray') -> bool:
 		# Check ray aginst overall bounds
-		ray_t = 0.
-		if self.bounds.inside(ray(ray.mint)):
-			ray_t = ray.mint
-		elif not self.bounds.intersect_p(ray):
+		hit, ray_t, _ = self.bounds.intersect_p(ray)
+		if not hit:
 			return False
 
 		grid_intersect = ray(ray_t)
@@ -313,16 +310,17 @@ class GridAccel(Aggregate):
 
 		pos = [self.pos2voxel(grid_intersect, axis) for axis in range(3)]
 
-		next_crossing = [ray_t + self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis] / ray.d[axis] \
+		next_crossing = [np.inf if ray.d[axis] == 0. else
+		                 ray_t + (self.voxel2pos(pos[axis] + 1, axis) - grid_intersect[axis]) / ray.d[axis] \
 		                 for axis in range(3)]
-		delta_t = self.width / ray.d
+		delta_t = [np.inf if ray.d[axis] == 0. else self.width[axis] / ray.d[axis] for axis in range(3)]
 		step = np.full(3, 1)
 		out = self.n_voxels.copy()
 		for axis in range(3):
 			# compute current voxel
 			if ray.d[axis] < 0:
 				# ray with neg. direction for stepping
-				next_crossing[axis] = ray_t + self.voxel2pos(pos[axis], axis) - grid_intersect[axis] / ray.d[axis]
+				next_crossing[axis] = ray_t + (self.voxel2pos(pos[axis], axis) - grid_intersect[axis]) / ray.d[axis]
 				delta_t[axis] *= -1
 				step[axis] = -1
 				out[axis] = -1
-- 
2.43.0


From 05b0f76c14467772ac423cd669091119e8b58cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 049/147] fix: TransformedPrimitive could not be instantiated
 or printed

---
 pytracer/aggregate/primitive.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pytracer/aggregate/primitive.py b/pytracer/aggregate/primitive.py
index 8daeae1..00d79f3 100644
--- a/pytracer/aggregate/primitive.py
+++ b/pytracer/aggregate/primitive.py
@@ -141,7 +141,7 @@ class TransformedPrimitive(Primitive):
 		self.w2p = w2p
 
 	def __repr__(self):
-		return super().__repr__(self) + '\n{}'.format(self.prim)
+		return super().__repr__() + '\n{}'.format(self.primitive)
 
 	def intersect(self, r: 'geo.Ray', isect: 'Intersection') -> bool:
 		w2p = self.w2p.interpolate(r.time)
@@ -176,11 +176,17 @@ class TransformedPrimitive(Primitive):
 		return self.w2p.motion_bounds(self.primitive.world_bound(), True)
 
 	def can_intersect(self) -> bool:
-		return self.shape.can_intersect()
+		return True
 
 	def refine(self, refined: ['Primitive']):
-		r = self.shape.refine()
-		for sh in r:
-			refined.append(GeometricPrimitive(sh, self.material, self.areaLight))
+		raise NotImplementedError('{}.refine(): Not implemented'.format(self.__class__))
 
+	# answered by the primitive recorded in the intersection
+	def get_area_light(self):
+		return None
 
+	def get_bsdf(self, dg: 'geo.DifferentialGeometry', o2w: 'trans.Transform'):
+		return None
+
+	def get_bssrdf(self, dg: 'geo.DifferentialGeometry', o2w: 'trans.Transform'):
+		return None
-- 
2.43.0


From 6d6b4bd63d51098efdd91ae0b7300a89a295de31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:36 +0000
Subject: [PATCH 050/147] fix: the scene extended its aggregate's bounds in
 place when adding its volume region

---
 pytracer/scene/scene.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/scene/scene.py b/pytracer/scene/scene.py
index e81a69e..fbf2a06 100644
--- a/pytracer/scene/scene.py
+++ b/pytracer/scene/scene.py
@@ -24,13 +24,13 @@ class Scene(object):
 		self.lights = lights
 		self.vr = vr
 
-		self.bound = self.aggregate.world_bound()
+		self.bound = geo.BBox.from_bbox(self.aggregate.world_bound())
 		if self.vr is not None:
 			self.bound.union(vr.world_bound())
 
 	def __repr__(self):
 		return "{}\nAggregates: {}\nLights: {}\nVolume Regions: {}" \
-					.format(self.__class__, self.aggregate, len(self.lights), "N/A" if self.vr is None else len(self.vr))
+					.format(self.__class__, self.aggregate, len(self.lights), "N/A" if self.vr is None else self.vr)
 
 	def intersect(self, ray: 'geo.Ray', isect: 'Intersection') -> bool:
 		return self.aggregate.intersect(ray, isect)
-- 
2.43.0


From f8c3ee1a35af32079233a7a52e4a1a7ab5eb0401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 051/147] fix: rays hit the empty box

---
 pytracer/geometry/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/geometry/__init__.py b/pytracer/geometry/__init__.py
index 4e80cd6..aab3ac9 100644
--- a/pytracer/geometry/__init__.py
+++ b/pytracer/geometry/__init__.py
@@ -596,7 +596,7 @@ class BBox:
 			b = 2
 			pass
 		for i in range(3):
-			if t_near[i] > t_far[i]:
+			if r.d[i] < 0.:
 				t_near[i], t_far[i] = t_far[i], t_near[i]
 			t0, t1 = np.fmax(t0, t_near[i]), np.fmin(t1, t_far[i])
 			if t0 > t1:
-- 
2.43.0


From 22ff32bcaf2957af4fb9a648850ac521477e36a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 052/147] fix: Loop subdivision failed on interior vertices:
 tangent sums started from unbound or stale values

---
 pytracer/shape/loopsubdiv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/shape/loopsubdiv.py b/pytracer/shape/loopsubdiv.py
index cb3672b..34431da 100644
--- a/pytracer/shape/loopsubdiv.py
+++ b/pytracer/shape/loopsubdiv.py
@@ -406,8 +406,8 @@ class LoopSubdiv(Shape):
 
 			if not vv.boundary:
 				## interior
-				S += np.sum([np.cos(2. * np.pi * k * valInv) * (Pring[k]) for k in range(valence)], axis=0)
-				T += np.sum([np.sin(2. * np.pi * k * valInv) * (Pring[k]) for k in range(valence)], axis=0)
+				S = geo.Vector.from_arr(np.sum([np.cos(2. * np.pi * k * valInv) * (Pring[k]) for k in range(valence)], axis=0))
+				T = geo.Vector.from_arr(np.sum([np.sin(2. * np.pi * k * valInv) * (Pring[k]) for k in range(valence)], axis=0))
 
 
 			else:
-- 
2.43.0


From de29fbd7d78f635129024a67ac73c84a6c0d9d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 053/147] fix: Loop subdivision pushed interior vertices to the
 wrong limit position

---
 pytracer/shape/loopsubdiv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/loopsubdiv.py b/pytracer/shape/loopsubdiv.py
index 34431da..2aad90e 100644
--- a/pytracer/shape/loopsubdiv.py
+++ b/pytracer/shape/loopsubdiv.py
@@ -258,7 +258,7 @@ class LoopSubdiv(Shape):
 
 	@staticmethod
 	def gamma(valence: INT) -> FLOAT:
-		return 1. / (valence + 3. / (8. + LoopSubdiv.beta(valence)))
+		return 1. / (valence + 3. / (8. * LoopSubdiv.beta(valence)))
 
 	def weight_one_ring(self, vert: 'SDVertex', beta: 'FLOAT') -> 'geo.Point':
 		valence = vert.valence()
-- 
2.43.0


From a144f075b3249685ecf1b464aac5a9351b436ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 054/147] fix: Loop subdivision normals opposed the winding of
 the triangles they belong to

---
 pytracer/shape/loopsubdiv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/loopsubdiv.py b/pytracer/shape/loopsubdiv.py
index 2aad90e..c0a0208 100644
--- a/pytracer/shape/loopsubdiv.py
+++ b/pytracer/shape/loopsubdiv.py
@@ -427,7 +427,7 @@ class LoopSubdiv(Shape):
 					             Pring[k] for k in range(valence - 1)], axis=0)
 					T *= -1.
 
-			Ns.append(geo.Normal.from_arr(S.cross(T)))
+			Ns.append(geo.Normal.from_arr(T.cross(S)))
 
 		# create `TriangleMesh`
 		verts = []
-- 
2.43.0


From e6db10493dc05b655fd458a02a5173eb2eca764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 055/147] fix: interpolated normals were turned inside out
 under mirroring transforms

---
 pytracer/shape/triangle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index 4fbf1df..55c3614 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -362,6 +362,10 @@ class Triangle(Shape):
 		else:
 			_, ss, ts = geo.coordinate_system(ns)
 
+		if self.transform_swaps_handedness:
+			# undo the flip applied for geometry computed in mirrored space
+			ts *= -1.
+
 		# compute dndu and dndv
 		if self.mesh.n is not None:
 			du1 = uvs[0][0] - uvs[2][0]
-- 
2.43.0


From 8f8ce00f74df027470f0c0dcd86113f71a8ffbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 056/147] fix: normal derivatives of instanced triangles were
 left in the instance's space

---
 pytracer/shape/triangle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index 55c3614..bb42bca 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -386,7 +386,7 @@ class Triangle(Shape):
 			dndu = geo.Normal(0., 0., 0.)
 			dndv = geo.Normal(0., 0., 0.)
 
-		dgs = geo.DifferentialGeometry(dg.p, ss, ts, self.mesh.o2w(dndu), self.mesh.o2w(dndv), dg.u, dg.v, dg.shape)
+		dgs = geo.DifferentialGeometry(dg.p, ss, ts, o2w(dndu), o2w(dndv), dg.u, dg.v, dg.shape)
 		dgs.dudx = dg.dudx
 		dgs.dvdx = dg.dvdx
 		dgs.dudy = dg.dudy
-- 
2.43.0


From 87b961d6e9b91af75b97b9819cbc8a094a497220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 057/147] fix: sample the cosine hemisphere from the concentric
 disk

---
 pytracer/montecarlo/utility.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pytracer/montecarlo/utility.py b/pytracer/montecarlo/utility.py
index 7468cf3..61d9649 100644
--- a/pytracer/montecarlo/utility.py
+++ b/pytracer/montecarlo/utility.py
@@ -179,9 +179,8 @@ def cosine_sample_hemisphere(u1: FLOAT, u2: FLOAT) -> 'geo.Vector':
 	`u1` and `u2` are two
 	random numbers passed in.
 	"""
-	vec = uniform_sample_sphere(u1, u2)
-	vec.z = np.sqrt(max(0., 1. - vec.x * vec.x - vec.y * vec.y))
-	return vec
+	x, y = concentric_sample_disk(u1, u2)
+	return geo.Vector(x, y, np.sqrt(max(0., 1. - x * x - y * y)))
 
 
 def cosine_hemisphere_pdf(costheta: FLOAT, phi: FLOAT) -> FLOAT:
-- 
2.43.0


From 9ba0f1be1b2175f2a4a30bafade88a1a54d27357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 058/147] fix: keep the concentric disk mapping continuous on
 its left and lower quarters

---
 pytracer/montecarlo/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/montecarlo/utility.py b/pytracer/montecarlo/utility.py
index 61d9649..df83318 100644
--- a/pytracer/montecarlo/utility.py
+++ b/pytracer/montecarlo/utility.py
@@ -158,11 +158,11 @@ def concentric_sample_disk(u1: FLOAT, u2: FLOAT) -> [FLOAT, FLOAT]:
 		if sx > sy:
 			# 4
 			r = -sy
-			theta = 6. + sx / sy
+			theta = 6. - sx / sy
 		else:
 			# 3
 			r = -sx
-			theta = 4. - sy / sx
+			theta = 4. + sy / sx
 	theta *= PI / 4.
 
 	return [r * np.cos(theta), r * np.sin(theta)]
-- 
2.43.0


From d431a81dc9f1df0f98e702944c397dfbfdb7d061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 059/147] fix: cone sampling without a frame called a
 non-existing function

---
 pytracer/montecarlo/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/montecarlo/utility.py b/pytracer/montecarlo/utility.py
index df83318..f67abaa 100644
--- a/pytracer/montecarlo/utility.py
+++ b/pytracer/montecarlo/utility.py
@@ -217,7 +217,7 @@ def uniform_sample_cone(u1: FLOAT, u2: FLOAT, ct_max: FLOAT,
 		ct = (1. - u1) + u1 * ct_max
 		st = np.sqrt(1. - ct * ct)
 		phi = u2 * 2. * PI
-		return geo.Vector(np.scos(phi) * st, np.sin(phi) * st, ct)
+		return geo.Vector(np.cos(phi) * st, np.sin(phi) * st, ct)
 	else:
 		ct = util.lerp(u1, ct_max, 1.)
 		st = np.sqrt(1. - ct * ct)
-- 
2.43.0


From c8c03377057f63c6ac2e4e58d2c8b9dff36f46ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 060/147] fix: sample piecewise-constant tables with zero
 weights

---
 pytracer/montecarlo/distribution.py | 36 +++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/pytracer/montecarlo/distribution.py b/pytracer/montecarlo/distribution.py
index d780b72..87529ad 100644
--- a/pytracer/montecarlo/distribution.py
+++ b/pytracer/montecarlo/distribution.py
@@ -39,11 +39,35 @@ class Distribution1D(object):
 
 		# transform step function into CDF
 		self.cdf_raw = self.cdf[-1]
-		self.cdf /= self.cdf_raw
+		if self.cdf_raw == 0.:
+			# nothing to be proportional to: sample uniformly
+			self.cdf = np.arange(self.cnt + 1) / self.cnt
+		else:
+			self.cdf /= self.cdf_raw
 
 	def __repr__(self):
 		return "{}\nSteps: {}\n".format(self.__class__, self.cnt)
 
+	def segment(self, u: FLOAT) -> INT:
+		"""
+		segment()
+
+		Index of the CDF segment containing `u`,
+		segments of zero weight are never selected.
+		"""
+		return min(np.searchsorted(self.cdf, u, side='right'),
+		           np.searchsorted(self.cdf, self.cdf[-1])) - 1
+
+	def density(self, off: INT) -> FLOAT:
+		"""
+		density()
+
+		Value of the pdf over segment `off`
+		"""
+		if self.cdf_raw == 0.:
+			return 1.
+		return self.func[off] / self.cdf_raw
+
 	def sample_cont(self, u: FLOAT) -> [FLOAT, FLOAT]:
 		"""
 		sample_cont()
@@ -54,15 +78,14 @@ class Distribution1D(object):
 		pdf: [rv, pdf].
 		"""
 		# surrounding CDF segment
-		idx = np.searchsorted(self.cdf, u) - 1
-		off = max(0, idx)
+		off = self.segment(u)
 
 		# compute offset
 		du = (u - self.cdf[off]) / (self.cdf[off + 1] - self.cdf[off])
 
 		# compute pdf for sampled offset
 		# and r.v. value
-		return [(du + off) / self.cnt, self.func[off] / self.cdf_raw]
+		return [(du + off) / self.cnt, self.density(off)]
 
 	def sample_dis(self, u: FLOAT) -> [FLOAT, FLOAT]:
 		"""
@@ -74,10 +97,9 @@ class Distribution1D(object):
 		pdf: [rv, pdf].
 		"""
 		# surrounding CDF segment
-		idx = np.searchsorted(self.cdf, u) - 1
-		off = max(0, idx)
+		off = self.segment(u)
 
-		return [off, self.func[off] / (self.cdf_raw * self.cnt)]
+		return [off, self.density(off) / self.cnt]
 
 
 class Distribution2D(object):
-- 
2.43.0


From 60700c2f78763d6a0d217fb88a33d115718283ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 061/147] fix: two-dimensional tables return the continuous row
 coordinate and its density

---
 pytracer/montecarlo/distribution.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pytracer/montecarlo/distribution.py b/pytracer/montecarlo/distribution.py
index 87529ad..761ede3 100644
--- a/pytracer/montecarlo/distribution.py
+++ b/pytracer/montecarlo/distribution.py
@@ -129,7 +129,7 @@ class Distribution2D(object):
 		self.p_marg_v = Distribution1D(marginal_v)
 
 	def __repr__(self):
-		return "{}\nSteps: {}\n".format(self.__class__, self.cnt)
+		return "{}\nSteps: {} * {}\n".format(self.__class__, self.p_marg_v.cnt, self.p_cond_v[0].cnt)
 
 	def sample_cont(self, u0: FLOAT, u1: FLOAT) -> [list, FLOAT]:
 		"""
@@ -142,9 +142,9 @@ class Distribution2D(object):
 		Returns [[u, v], pdf]
 		"""
 		v, pdf1 = self.p_marg_v.sample_cont(u1)
-		v = np.clip(util.ftoi(v * self.p_marg_v.cnt), 0, self.p_marg_v.cnt - 1).astype(INT)
+		vi = self.p_marg_v.segment(u1)
 
-		u, pdf0 = self.p_cond_v[v].sample_cont(u0)
+		u, pdf0 = self.p_cond_v[vi].sample_cont(u0)
 
 		return [[u, v], pdf0 * pdf1]
 
@@ -157,11 +157,7 @@ class Distribution2D(object):
 		ui = np.clip(util.ftoi(u * self.p_cond_v[0].cnt), 0, self.p_cond_v[0].cnt - 1).astype(INT)
 		vi = np.clip(util.ftoi(v * self.p_marg_v.cnt), 0, self.p_marg_v.cnt - 1).astype(INT)
 
-		if self.p_cond_v[vi].cdf_raw * self.p_marg_v.cdf_raw == 0.:
-			return 0.
-
-		return (self.p_cond_v[vi].func[ui] * self.p_marg_v.func[vi]) / \
-		       (self.p_cond_v[vi].cdf_raw * self.p_marg_v.cdf_raw)
+		return self.p_cond_v[vi].density(ui) * self.p_marg_v.density(vi)
 
 
 
-- 
2.43.0


From 21079e3f06c1b175939ae68895764b4f4a588490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 062/147] fix: split the sampling window into integer tiles
 that partition it

---
 pytracer/sampler/sampler/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pytracer/sampler/sampler/__init__.py b/pytracer/sampler/sampler/__init__.py
index e1277d7..53a6330 100644
--- a/pytracer/sampler/sampler/__init__.py
+++ b/pytracer/sampler/sampler/__init__.py
@@ -105,10 +105,8 @@ class Sampler(object, metaclass=ABCMeta):
 		# compute x and y pixel sample range
 		x0 = num % nx
 		y0 = num // nx
-		x = np.clip([x0 / nx, (x0 + 1) / nx], self.xPixel_start, self.xPixel_end)
-		y = np.clip([y0 / ny, (y0 + 1) / ny], self.yPixel_start, self.yPixel_end)
-		return np.concatenate([util.ufunc_lerp(x, self.xPixel_start, self.xPixel_end),
-		                       util.ufunc_lerp(y, self.yPixel_start, self.yPixel_end)])
+		return np.array([self.xPixel_start + x0 * dx // nx, self.xPixel_start + (x0 + 1) * dx // nx,
+		                 self.yPixel_start + y0 * dy // ny, self.yPixel_start + (y0 + 1) * dy // ny], dtype=INT)
 
 
 from pytracer.sampler.sampler.stratified import *
\ No newline at end of file
-- 
2.43.0


From 84e6ad9f4dea4b0a5eb13417d7242128d411e26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 063/147] fix: an empty window has no samples

---
 pytracer/sampler/sampler/stratified.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/sampler/sampler/stratified.py b/pytracer/sampler/sampler/stratified.py
index d9ec087..a4ddde7 100644
--- a/pytracer/sampler/sampler/stratified.py
+++ b/pytracer/sampler/sampler/stratified.py
@@ -48,7 +48,7 @@ class StratifiedSampler(Sampler):
 		samples are initiliazed and len(samplse) == self.xSamples * self.ySamples.
 		Return a bool indicating whether there is are more samples to generate.
 		"""
-		if self.yPos == self.yPixel_end:
+		if self.yPos >= self.yPixel_end or self.xPixel_start >= self.xPixel_end:
 			return False
 
 		n_samples = self.xSamples * self.ySamples
-- 
2.43.0


From 61d8088a2a22e10cc46307c2a3a82aaabce1b215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 064/147] fix: direct lighting with one light per sample
 requests and passes its sample offsets correctly

---
 pytracer/integrator/surface/direct.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/integrator/surface/direct.py b/pytracer/integrator/surface/direct.py
index ad5461c..980341b 100644
--- a/pytracer/integrator/surface/direct.py
+++ b/pytracer/integrator/surface/direct.py
@@ -64,7 +64,7 @@ class DirectLightingIntegrator(SurfaceIntegrator):
 			# sampling one light
 			n_lights = len(scene.lights)
 			self.light_sample_offsets = [LightSampleOffset(1, sample)]
-			self.light_num_offset = sample.add1d(1)
+			self.light_num_offset = sample.add_1d(1)
 			self.bsdf_sample_offsets = [BSDFSampleOffset(1, sample)]
 
 	def li(self, scene: 'Scene', renderer: 'Renderer', ray: 'geo.RayDifferential',
@@ -91,7 +91,7 @@ class DirectLightingIntegrator(SurfaceIntegrator):
 			elif self.strategy == LightStrategy.SAMPLE_ONE_UNIFORM:
 				from pytracer.integrator.utility import uniform_sample_one_light
 				L += uniform_sample_one_light(scene, renderer, p, n, wo, isect.rEps, ray.time,
-						bsdf, sample, self.light_num_offset, self.light_sample_offsets, self.bsdf_sample_offsets, rng)
+						bsdf, sample, self.light_num_offset, self.light_sample_offsets[0], self.bsdf_sample_offsets[0], rng)
 
 			else:
 				raise RuntimeError("Unknown LightStrategy")
-- 
2.43.0


From d1691c2b601d144deddf8f4a8219714250a81d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 065/147] fix: read greyscale, palette and odd-sized images;
 keep the resampled picture

---
 pytracer/utility/imageio.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pytracer/utility/imageio.py b/pytracer/utility/imageio.py
index bb9e5df..a72198a 100644
--- a/pytracer/utility/imageio.py
+++ b/pytracer/utility/imageio.py
@@ -29,19 +29,17 @@ def read_image(filename: str) -> ['spec.Spectrum']:
 	specs = None
 	img = None
 	with PIL.Image.open(filename) as pic:
-		img = np.array(pic)
-		width, height, chn = np.shape(img) # note the order of height and width
-		if chn >= 4:
-			# desert alpha
-			img = img[:,:,0:3]
+		pic = pic.convert('RGB')	# desert alpha, expand greyscale
+		width, height = pic.size
 
 		# avoid expensive resizing in src.core.texture.MIPMap.__init__()
 		if (not util.is_pow_2(width)) or (not util.is_pow_2(height)):
 			# re-sample to power of 2
 			width = util.next_pow_2(width)
 			height = util.next_pow_2(height)
-			pic.resize((width, height))
-			img = np.array(pic)
+			pic = pic.resize((width, height))
+
+		img = np.array(pic)
 
 	if img is not None:
 		return img
-- 
2.43.0


From 52cedd81289187b2da8eca73d423ca3a60863c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 066/147] fix: writing an image leaves the caller's array alone
 and keeps hues

---
 pytracer/utility/imageio.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pytracer/utility/imageio.py b/pytracer/utility/imageio.py
index a72198a..64b347f 100644
--- a/pytracer/utility/imageio.py
+++ b/pytracer/utility/imageio.py
@@ -55,11 +55,11 @@ def write_image(filename: str, rgb: 'np.ndarray', alpha: 'np.ndarray',
 	if filename is None or rgb is None:
 		raise IOError('scr.core.pytracer.write_image(): filename and rgb cannot '
 							'be None')
-	for i in range(3):
-		coef = np.max(rgb[:, :, i])
-		if not coef == 0.:
-			rgb[:, :, i] = (255. * rgb[:, :, i]) / coef
-	
+	# one scale for all channels, otherwise colors change
+	coef = np.max(rgb)
+	if not coef == 0.:
+		rgb = (255. * rgb) / coef
+
 	rgb = rgb.astype('uint8')
 
 	if alpha is None:
-- 
2.43.0


From 3fba0188abd9256646a60a213cf655f6c5662b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 067/147] fix: updating a crop of an image writes exactly the
 cropped rows and columns

---
 pytracer/utility/imageio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/utility/imageio.py b/pytracer/utility/imageio.py
index 64b347f..0867e19 100644
--- a/pytracer/utility/imageio.py
+++ b/pytracer/utility/imageio.py
@@ -76,10 +76,10 @@ def write_image(filename: str, rgb: 'np.ndarray', alpha: 'np.ndarray',
 														'to update'.format(filename))
 			# update img
 			pic = PIL.Image.open(filename)
-			img = np.array(pic)
+			img = np.array(pic.convert('RGB'))
 			pic.close()
 
-			img[xOffset:xOffset+xRes-1, yOffset:yOffset+yRes-1, :] = rgb
+			img[yOffset:yOffset+yRes, xOffset:xOffset+xRes, :] = rgb
 			ret = img.copy()
 
 			pic = PIL.Image.fromarray(img, mode="RGB")
-- 
2.43.0


From ee16866bc9d32821463cfe648a974c31b298477b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 068/147] fix: the film's first row depends on the vertical
 resolution

---
 pytracer/film/film.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/film/film.py b/pytracer/film/film.py
index b0d9c81..38d196d 100644
--- a/pytracer/film/film.py
+++ b/pytracer/film/film.py
@@ -115,7 +115,7 @@ class ImageFilm(Film):
 		# compute film image extent
 		self.xPixel_start = INT(np.ceil(xr * crop[0]))
 		self.xPixel_cnt = np.maximum(1, INT(np.ceil(xr * crop[1])) - self.xPixel_start)
-		self.yPixel_start = INT(np.ceil(xr * crop[2]))
+		self.yPixel_start = INT(np.ceil(yr * crop[2]))
 		self.yPixel_cnt = np.maximum(1, INT(np.ceil(yr * crop[3])) - self.yPixel_start)
 
 		# allocate storage
-- 
2.43.0


From 73f08e967caebae63905ae05d1b9475e1e0077b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 069/147] fix: rays carry the sample's shutter time

---
 pytracer/camera/environment.py | 4 +---
 pytracer/camera/projective.py  | 4 ++--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/pytracer/camera/environment.py b/pytracer/camera/environment.py
index 6c97975..c296803 100644
--- a/pytracer/camera/environment.py
+++ b/pytracer/camera/environment.py
@@ -31,13 +31,11 @@ class EnvironmentCamera(Camera):
 		Generate ray based on image sample.
 		Returned ray direction is normalized
 		"""
-		time = util.lerp(sample.time, self.s_open, self.s_close)
-
 		# compute ray direction
 		theta = np.pi * sample.imageY / self.film.yResolution
 		phi = 2 * np.pi * sample.imageX / self.film.xResolution
 		stheta = np.sin(theta)
 
 		ray = self.c2w(geo.Ray(geo.Point(0., 0., 0.),
-				geo.Vector(stheta * np.cos(phi), np.cos(theta), stheta * np.sin(phi)), 0., np.inf, time))
+				geo.Vector(stheta * np.cos(phi), np.cos(theta), stheta * np.sin(phi)), 0., np.inf, 0, sample.time))
 		return [1., ray]
diff --git a/pytracer/camera/projective.py b/pytracer/camera/projective.py
index 1b9ccb7..6b3f459 100644
--- a/pytracer/camera/projective.py
+++ b/pytracer/camera/projective.py
@@ -106,7 +106,7 @@ class OrthoCamera(ProjectiveCamera):
 			ray.o = geo.Point(lens_u, lens_v, 0.)
 			ray.d = geo.normalize(Pfoc - ray.o)
 
-		ray.time = util.lerp(sample.time, self.s_open, self.s_close)
+		ray.time = sample.time
 		ray = self.c2w(ray)
 		return [1., ray]
 
@@ -171,7 +171,7 @@ class PerspectiveCamera(ProjectiveCamera):
 			ray.o = geo.Point(lens_u, lens_v, 0.)
 			ray.d = geo.normalize(Pfoc - ray.o)
 
-		ray.time = util.lerp(sample.time, self.s_open, self.s_close)
+		ray.time = sample.time
 		ray = self.c2w(ray)
 		return [1., ray]
 
-- 
2.43.0


From a167a6cf784eb6114b6ea43c69526175ee346553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 070/147] fix: pinhole camera rays are normalized and carry the
 sample's time

---
 pytracer/camera/projective.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pytracer/camera/projective.py b/pytracer/camera/projective.py
index 6b3f459..df5fb86 100644
--- a/pytracer/camera/projective.py
+++ b/pytracer/camera/projective.py
@@ -29,9 +29,7 @@ class PinholeCamera(Camera):
 	def generate_ray(self, sample: 'CameraSample') -> [FLOAT, 'geo.Ray']:
 		p = geo.Point(sample.imageX, sample.imageY, 0.)
 		pp = geo.Point(0., 0., self.focal)
-		d = self.c2w.startTransform(pp - p)
-		p = self.c2w.startTransform(p)
-		return 1., geo.Ray(p, d)
+		return [1., self.c2w(geo.Ray(p, geo.normalize(pp - p), 0., np.inf, 0, sample.time))]
 
 
 class ProjectiveCamera(Camera):
-- 
2.43.0


From a3eee4479f1118302a15b5a690e0af4ea0642103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 071/147] fix: generic ray differentials shift a copy of the
 camera sample

---
 pytracer/camera/camera.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pytracer/camera/camera.py b/pytracer/camera/camera.py
index a11eaa4..791e302 100644
--- a/pytracer/camera/camera.py
+++ b/pytracer/camera/camera.py
@@ -7,6 +7,7 @@ Created by Jiayao on July 31, 2017
 Modified on Aug 13, 2017
 """
 from __future__ import absolute_import
+import copy
 from abc import (ABCMeta, abstractmethod)
 from pytracer import *
 import pytracer.geometry as geo
@@ -52,16 +53,14 @@ class Camera(object, metaclass=ABCMeta):
 		rd = geo.RayDifferential.from_ray(rd)
 
 		# find ray shift along x
-		from pytracer.sampler import CameraSample
-		
-		xshift = sample.duplicate(1)[0]
+		xshift = copy.copy(sample)
 		xshift.imageX += 1
 		wtx, rx = self.generate_ray(xshift)
 		rd.rxOrigin = rx.o
 		rd.rxDirection = rx.d
 
 		# find ray shift along y
-		yshift = sample.duplicate(1)[0]
+		yshift = copy.copy(sample)
 		yshift.imageY += 1
 		wty, ry = self.generate_ray(yshift)
 		rd.ryOrigin = ry.o
-- 
2.43.0


From ee3e7e901102fcc6209054f2fe23d9833855e249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 072/147] fix: orthographic ray differentials were offset in
 camera space and transformed twice

---
 pytracer/camera/projective.py | 19 -------------------
 1 file changed, 19 deletions(-)

diff --git a/pytracer/camera/projective.py b/pytracer/camera/projective.py
index df5fb86..fe083f5 100644
--- a/pytracer/camera/projective.py
+++ b/pytracer/camera/projective.py
@@ -71,9 +71,6 @@ class OrthoCamera(ProjectiveCamera):
 				 s_open: FLOAT, s_close: FLOAT, lensr: FLOAT, focald: FLOAT, f: 'Film'):
 		super().__init__(c2w, trans.Transform.orthographic(0., 1.), scr_win, s_open,
 						 s_close, lensr, focald, f)
-		# compute differential changes in origin
-		self.dxCam = self.r2c(geo.Vector(1., 0., 0.))
-		self.dyCam = self.r2c(geo.Vector(0., 1., 0.))
 
 	def generate_ray(self, sample: 'CameraSample') -> [FLOAT, 'geo.Ray']:
 		"""
@@ -108,22 +105,6 @@ class OrthoCamera(ProjectiveCamera):
 		ray = self.c2w(ray)
 		return [1., ray]
 
-	def generate_ray_differential(self, sample: 'CameraSample') -> [FLOAT, 'geo.RayDifferential']:
-		"""
-		Generate ray differential.
-		"""
-		wt, rd = self.generate_ray(sample)
-		rd = geo.RayDifferential.from_ray(rd)
-
-		# find ray shift along x
-		rd.rxOrigin = rd.o + self.dxCam
-		rd.ryOrigin = rd.o + self.dyCam
-		rd.rxDirection = rd.ryDirection = rd.d
-		rd.has_differentials = True
-		rd = self.c2w(rd)
-
-		return [wt, rd]
-
 
 class PerspectiveCamera(ProjectiveCamera):
 	"""
-- 
2.43.0


From afc47fdd1518a3fb23934ebfcb8533629dd720c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:46 +0000
Subject: [PATCH 073/147] fix: dielectric Fresnel term for parallel polarized
 light had a wrong denominator

---
 pytracer/reflection/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/reflection/utility.py b/pytracer/reflection/utility.py
index 419fdb5..0163a9e 100644
--- a/pytracer/reflection/utility.py
+++ b/pytracer/reflection/utility.py
@@ -51,7 +51,7 @@ def fr_diel(cos_i: FLOAT, cos_t: FLOAT, eta_i: 'Spectrum', eta_t: 'Spectrum') ->
 	dielectric materials and circularly polarized light
 	"""
 	r_para = ((eta_t * cos_i ) - (eta_i * cos_t)) / \
-				((eta_t * cos_i) + (eta_t * cos_t))
+				((eta_t * cos_i) + (eta_i * cos_t))
 	r_perp = ((eta_i * cos_i) - (eta_t * cos_t)) / \
 				((eta_i * cos_i) + (eta_t * cos_t))
 	return .5 * (r_para * r_para + r_perp * r_perp)
-- 
2.43.0


From ef2c6c215c26005351c0be16ad583788f05d1db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:46 +0000
Subject: [PATCH 074/147] fix: specular transmission swapped its media when
 entering and scaled radiance the wrong way

---
 pytracer/reflection/bdf/bdf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index ead8b4a..2f6e7d4 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -285,7 +285,8 @@ class SpecularTransmission(BDF):
 	             u2: FLOAT) -> [FLOAT, 'geo.Vector', 'Spectrum']:
 		# find eta pair
 		ei, et = self.ei, self.et
-		if cos_theta(wo) > 0.:
+		if cos_theta(wo) < 0.:
+			# ray is on the inside
 			ei, et = et, ei
 
 		# compute transmited ray direction
@@ -294,7 +295,7 @@ class SpecularTransmission(BDF):
 		st_sq = eta * eta * si_sq
 
 		if st_sq >= 1.:
-			return [0., None, None]
+			return [0., None, Spectrum(0.)]
 
 		ct = np.sqrt(max(0., 1. - st_sq))
 		if cos_theta(wo) > 0.:
@@ -303,7 +304,7 @@ class SpecularTransmission(BDF):
 
 		F = self.fresnel(cos_theta(wo))
 
-		return [1., wi, (et * et) / (ei * ei) * (Spectrum(1.) - F) * \
+		return [1., wi, (ei * ei) / (et * et) * (Spectrum(1.) - F) * \
 		        self.T / abs_cos_theta(wi)]  # 1. suggests no MC samples needed
 
 
-- 
2.43.0


From 73770095a1f29d4f35c2df5aac6c153d6bf06050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:46 +0000
Subject: [PATCH 075/147] fix: the scaling adapter referred to a missing
 attribute and ignored the density of its lobe

---
 pytracer/reflection/bdf/bdf.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index 2f6e7d4..7aea1d0 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -214,16 +214,18 @@ class ScaledBDF(BDF):
 		self.s = sc
 
 	# scale by spectrum
-	def f(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.s * self.brdf.f(wo, wi)
+	def f(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.s * self.bdf.f(wo, wi)
+
+	def pdf(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.bdf.pdf(wo, wi)
 
 	def sample_f(self, wo: 'geo.Vector', u1: FLOAT, u2: FLOAT):
-		pdf, wi, f = self.brdf.sample_f(wo, u1, u2)
+		pdf, wi, f = self.bdf.sample_f(wo, u1, u2)
 		return pdf, wi, self.s * f
 
-	def rho_hd(self, wo: 'geo.Vector', samples: [FLOAT]): return self.s * self.brdf.rho_hd(wo, samples)
+	def rho_hd(self, wo: 'geo.Vector', samples: [FLOAT]): return self.s * self.bdf.rho_hd(wo, samples)
 
 	def rho_hh(self, nSamples: INT, samples_1: [FLOAT],
-					samples_2: [FLOAT]): return self.s * self.brdf.rho_hh(nSamples, samples_1, samples_2)
+					samples_2: [FLOAT]): return self.s * self.bdf.rho_hh(nSamples, samples_1, samples_2)
 
 
 class SpecularReflection(BDF):
-- 
2.43.0


From abb2eded61da9241e8a3971d866c3f96182ccb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:46 +0000
Subject: [PATCH 076/147] fix: the reflection-to-transmission adapter ignored
 the density of its lobe

---
 pytracer/reflection/bdf/bdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index 7aea1d0..ebf5ca3 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -190,6 +190,8 @@ class BRDF2BTDF(BDF):
 	# forward function calls
 	def f(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.brdf.f(wo, self.switch(wi))
 
+	def pdf(self, wo: 'geo.Vector', wi: 'geo.Vector'): return self.brdf.pdf(wo, self.switch(wi))
+
 	def sample_f(self, wo: 'geo.Vector', u1: FLOAT,  u2: FLOAT):
 		pdf, wi, f = self.brdf.sample_f(wo, u1, u2)
 		return pdf, self.switch(wi), f
-- 
2.43.0


From 4366e6c3fc1795d68dafe2c1a8c43ccb060d31fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:11 +0000
Subject: [PATCH 077/147] fix: glossy samples below the surface were returned
 with a density their query denies

---
 pytracer/reflection/bdf/fresnelblend.py | 2 +-
 pytracer/reflection/bdf/torrance.py     | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytracer/reflection/bdf/fresnelblend.py b/pytracer/reflection/bdf/fresnelblend.py
index a9abf7b..dab62c6 100644
--- a/pytracer/reflection/bdf/fresnelblend.py
+++ b/pytracer/reflection/bdf/fresnelblend.py
@@ -52,7 +52,7 @@ class FresnelBlend(BDF):
 			pdf, wi = self.distribution.sample_f(wo, u1, u2)
 			if wo.z * wi.z <= 0.:
 				# not on the same hemisphere
-				return [pdf, wi, Spectrum(0.)]
+				return [0., wi, Spectrum(0.)]
 		return [self.pdf(wo, wi), wi, self.f(wo, wi)]
 
 	def pdf(self, wo: 'geo.Vector', wi: 'geo.Vector') -> FLOAT:
diff --git a/pytracer/reflection/bdf/torrance.py b/pytracer/reflection/bdf/torrance.py
index 0da86c2..28f13c1 100644
--- a/pytracer/reflection/bdf/torrance.py
+++ b/pytracer/reflection/bdf/torrance.py
@@ -219,7 +219,8 @@ class Microfacet(BDF):
 	             u2: FLOAT) -> [FLOAT, 'geo.Vector', 'Spectrum']:
 		pdf, wi = self.distribution.sample_f(wo, u1, u2)
 		if wi.z * wo.z <= 0.:
-			return [pdf, wi, Spectrum(0.)]
+			# not on the same hemisphere
+			return [0., wi, Spectrum(0.)]
 		return [pdf, wi, self.f(wo, wi)]
 
 	def pdf(self, wo: 'geo.Vector', wi: 'geo.Vector') -> FLOAT:
-- 
2.43.0


From 8208c336e65fd6a3e590abedecfd893f135d9839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:11 +0000
Subject: [PATCH 078/147] fix: glossy models were negative across the shading
 plane and undefined for opposite directions

---
 pytracer/reflection/bdf/fresnelblend.py | 5 ++++-
 pytracer/reflection/bdf/torrance.py     | 9 ++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pytracer/reflection/bdf/fresnelblend.py b/pytracer/reflection/bdf/fresnelblend.py
index dab62c6..fa49d4a 100644
--- a/pytracer/reflection/bdf/fresnelblend.py
+++ b/pytracer/reflection/bdf/fresnelblend.py
@@ -66,7 +66,10 @@ class FresnelBlend(BDF):
 		          (1. - np.power(1. - .5 * abs_cos_theta(wi), 5)) * \
 		          (1. - np.power(1. - .5 * abs_cos_theta(wo), 5))
 
-		wh = geo.normalize(wi + wo)
+		wh = wi + wo
+		if wh.sq_length() == 0.:
+			return Spectrum(0.)
+		wh = geo.normalize(wh)
 
 		specular = self.distribution.D(wh) / \
 		           (4. * wi.abs_dot(wh) * max(abs_cos_theta(wi), abs_cos_theta(wo))) * \
diff --git a/pytracer/reflection/bdf/torrance.py b/pytracer/reflection/bdf/torrance.py
index 28f13c1..6e53ca5 100644
--- a/pytracer/reflection/bdf/torrance.py
+++ b/pytracer/reflection/bdf/torrance.py
@@ -198,13 +198,16 @@ class Microfacet(BDF):
 		self.distribution = d
 
 	def f(self, wo: 'geo.Vector', wi: 'geo.Vector') -> 'Spectrum':
-		ct_i = cos_theta(wi)
-		ct_o = cos_theta(wo)
+		ct_i = abs_cos_theta(wi)
+		ct_o = abs_cos_theta(wo)
 
 		if ct_i == 0. or ct_o == 0.:
 			return Spectrum(0.)
 
-		wh = geo.normalize(wi + wo)
+		wh = wi + wo
+		if wh.sq_length() == 0.:
+			return Spectrum(0.)
+		wh = geo.normalize(wh)
 		ct_h = wi.dot(wh)
 		F = self.fresnel(ct_h)
 
-- 
2.43.0


From 7b578b65c9e9ce8f2be3a3a1e2c8ac5969824816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:11 +0000
Subject: [PATCH 079/147] fix: half-angle tables were indexed with misplaced
 cell counts and a misscaled difference angle

---
 pytracer/reflection/bdf/measured.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pytracer/reflection/bdf/measured.py b/pytracer/reflection/bdf/measured.py
index 1c19ca7..5d128f6 100644
--- a/pytracer/reflection/bdf/measured.py
+++ b/pytracer/reflection/bdf/measured.py
@@ -85,6 +85,10 @@ class ReHalfangleBRDF(BDF):
 	def f(self, wo: 'geo.Vector', wi: 'geo.Vector') -> 'Spectrum':
 		# find wh and transform wi to halfangle coord. system
 		wh = geo.normalize(wi + wo)
+		if wh.z < 0.:
+			# measure on the upper side
+			wi = -wi
+			wh = -wh
 
 		t = geo.spherical_theta(wh)
 		cp = cos_phi(wh)
@@ -100,9 +104,9 @@ class ReHalfangleBRDF(BDF):
 		wdp = geo.spherical_phi(wd)
 		if wdp > PI:
 			wdp -= PI
-		wht_idx = np.clip(INT((np.sqrt(max(0., t / (PI / 2.)))) / self.nThetaH), 0, self.nThetaH - 1)
+		wht_idx = np.clip(INT(np.sqrt(max(0., t / (PI / 2.))) * self.nThetaH), 0, self.nThetaH - 1)
 
-		wdt_idx = np.clip(INT(wdt / (self.nThetaD * PI)), 0, self.nThetaD - 1)
+		wdt_idx = np.clip(INT(wdt / (PI / 2.) * self.nThetaD), 0, self.nThetaD - 1)
 
-		wdp_idx = np.clip(INT(wdp / (self.nPhiD * PI)), 0, self.nPhiD - 1)
+		wdp_idx = np.clip(INT(wdp / PI * self.nPhiD), 0, self.nPhiD - 1)
 		return Spectrum.from_rgb(self.brdf[wht_idx][wdt_idx][wdp_idx])
-- 
2.43.0


From bd3db4e02b2cf412d1f0d403d38908098cdd3c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:27 +0000
Subject: [PATCH 080/147] fix: BSDF mapped local directions to the world with
 one component each

---
 pytracer/reflection/bsdf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/reflection/bsdf.py b/pytracer/reflection/bsdf.py
index 49c322a..82e9fe7 100644
--- a/pytracer/reflection/bsdf.py
+++ b/pytracer/reflection/bsdf.py
@@ -200,9 +200,9 @@ class BSDF(object):
 		Transform a `geo.Vector` in the local system
 		to the world system
 		"""
-		return geo.Vector(self.sn.x * v.x + self.tn.x * v.x + self.nn.x * v.x,
-		                  self.sn.y * v.y + self.tn.y * v.y + self.nn.y * v.y,
-		                  self.sn.z * v.z + self.tn.z * v.z + self.nn.z * v.z)
+		return geo.Vector(self.sn.x * v.x + self.tn.x * v.y + self.nn.x * v.z,
+		                  self.sn.y * v.x + self.tn.y * v.y + self.nn.y * v.z,
+		                  self.sn.z * v.x + self.tn.z * v.y + self.nn.z * v.z)
 
 	def f(self, wo_w: 'geo.Vector', wi_w: 'geo.Vector', flags: 'BDFType' = BDFType.ALL) -> 'Spectrum':
 		wi = self.w2l(wi_w)
-- 
2.43.0


From 5314a7155b51795ecee3f3805ba4e87c39cec22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:27 +0000
Subject: [PATCH 081/147] fix: scattering type masks were always true and equal
 only to themselves, so every lobe counted as specular

---
 pytracer/reflection/bdf/bdf.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pytracer/reflection/bdf/bdf.py b/pytracer/reflection/bdf/bdf.py
index ebf5ca3..66f3767 100644
--- a/pytracer/reflection/bdf/bdf.py
+++ b/pytracer/reflection/bdf/bdf.py
@@ -36,6 +36,17 @@ class BDFType():
 	def __repr__(self):
 		return "{}\nEnum: {}".format(self.__class__, self.v)
 
+	def __bool__(self):
+		return bool(self.v != 0)
+
+	def __eq__(self, other):
+		if isinstance(other, BDFType):
+			return bool(self.v == other.v)
+		return bool(self.v == other)
+
+	def __hash__(self):
+		return hash(int(self.v))
+
 	def __invert__(self):
 		return BDFType(~self.v)
 
-- 
2.43.0


From ca6139a86df4496cf5df6fbac483a342297e4095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:27 +0000
Subject: [PATCH 082/147] fix: BSDF reflectance used a world direction in local
 space and its description a missing attribute

---
 pytracer/reflection/bsdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytracer/reflection/bsdf.py b/pytracer/reflection/bsdf.py
index 82e9fe7..8ee6a49 100644
--- a/pytracer/reflection/bsdf.py
+++ b/pytracer/reflection/bsdf.py
@@ -95,7 +95,7 @@ class BSDF(object):
 
 	def __repr__(self):
 		return "{}\nBDF Count: {}\ngeo.Point: {}".format(self.__class__,
-		                                                 self.nBDF, self.dgs.p)
+		                                                 self.n_BDF, self.dgs.p)
 
 	def sample_f(self, wo_w: 'geo.Vector', bsdf_smp: 'BSDFSample',
 	             flags: 'BDFType') -> [FLOAT, 'geo.Vector', 'BDFType' 'Spectrum']:
@@ -233,6 +233,7 @@ class BSDF(object):
 		nSamples = sqrt_samples * sqrt_samples
 		smp = stratified_sample_2d(sqrt_samples, sqrt_samples, rng=rng)
 
+		wo = self.w2l(wo)
 		sp = Spectrum(0.)
 		for bdf in self.bdfs:
 			if bdf.match_flag(flags):
-- 
2.43.0


From e790e47b75276cb17bb5291a6354b65ae5f0f7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:19 +0000
Subject: [PATCH 083/147] fix: irregularly measured reflectance divided zero by
 zero away from its samples

---
 pytracer/reflection/bdf/measured.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytracer/reflection/bdf/measured.py b/pytracer/reflection/bdf/measured.py
index 5d128f6..c8dd294 100644
--- a/pytracer/reflection/bdf/measured.py
+++ b/pytracer/reflection/bdf/measured.py
@@ -61,6 +61,8 @@ class IrIsotropicBRDF(BDF):
 					sum_wt += wt
 					v += sample.v * wt
 
+				if sum_wt == 0.:
+					return Spectrum(0.)
 				return v.clip() / sum_wt
 
 			max_dist *= 1.414
-- 
2.43.0


From 02fd295e6fd9b706a6b7b0c5850bde2e9fc2667c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:48 +0000
Subject: [PATCH 084/147] fix: image pyramids of plain numbers could not be
 built and 8-bit images overflowed while being averaged

---
 pytracer/texture/utility.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index dbe61bf..6c49c41 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -223,6 +223,10 @@ class MIPMap(object):
 		self.max_aniso = max_aniso
 		self.wrap = wrap
 
+		if img.dtype != object:
+			# average in full precision
+			img = img.astype(FLOAT)
+
 		sres, tres = img.shape[0:2]
 
 		resampled = None
@@ -256,7 +260,7 @@ class MIPMap(object):
 							resampled[t, s] += s_wts[s][1 + j] * img[t, orig_s]
 			## t
 			t_wts = MIPMap.resample(tres, tp)
-			t_tmp = np.zeros(tp, dtype=img.dtype)
+			t_tmp = np.zeros(tp, dtype=typename)
 			for s in range(sp):
 				for t in range(tp):
 					# (s, t) in s-zoomed image
@@ -272,9 +276,9 @@ class MIPMap(object):
 							t_tmp[t] += t_wts[t][1 + j] * resampled[orig_t, s]
 
 				resampled[:, s] = t_tmp.copy()
-				if self.typename is Spectrum:
-					for t in range(tp):
-						resampled[t, s] = resampled[t, s].clip()
+				for t in range(tp):
+					# filter lobes are negative
+					resampled[t, s] = np.clip(resampled[t, s], 0., np.inf)
 
 			sres, tres = sp, tp
 
@@ -282,7 +286,7 @@ class MIPMap(object):
 
 		# init levels of MIPMap
 		self.__n_levels = 1 + INT(np.log2(max(sres, tres)))
-		self.__pyramid = np.empty(self.__n_levels, dtype=self.typename)
+		self.__pyramid = [None] * self.__n_levels
 		# most detailed level
 		self.__pyramid[0] = img if resampled is None else resampled
 
-- 
2.43.0


From f7a44b08a2cb748e766e48166c7c2f08a743ead8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:48 +0000
Subject: [PATCH 085/147] fix: image pyramids mixed up rows and columns,
 transposing every other level and failing on non-square images

---
 pytracer/texture/utility.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 6c49c41..36d78fb 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -227,7 +227,8 @@ class MIPMap(object):
 			# average in full precision
 			img = img.astype(FLOAT)
 
-		sres, tres = img.shape[0:2]
+		# s runs along columns, t along rows
+		tres, sres = img.shape[0:2]
 
 		resampled = None
 
@@ -292,7 +293,7 @@ class MIPMap(object):
 
 		for i in range(1, self.__n_levels):
 			# bottom-up init
-			u, v = self.__pyramid[i - 1].shape[0:2]
+			v, u = self.__pyramid[i - 1].shape[0:2]
 			s_res = max(1, UINT(u // 2))
 			t_res = max(1, UINT(v // 2))
 			self.__pyramid[i] = np.empty([t_res, s_res], dtype=object)
@@ -312,7 +313,7 @@ class MIPMap(object):
 
 	def texel(self, level: UINT, s: INT, t: INT):
 		l = self.__pyramid[level]
-		u, v = l.shape[0:2]
+		v, u = l.shape[0:2]
 		# compute texel (s, t)
 		if self.wrap == ImageWrap.REPEAT:
 			s = s % u
@@ -324,7 +325,7 @@ class MIPMap(object):
 			if s < 0 or s >= u or t < 0 or t >= v:
 				return self.typename(0.)
 
-		return l[s, t].view(self.typename)
+		return l[t, s].view(self.typename)
 
 	@property
 	def width(self):
@@ -340,7 +341,8 @@ class MIPMap(object):
 
 	def __triangle(self, level: UINT, s: FLOAT, t: FLOAT):
 		level = np.clip(level, 0, self.__n_levels - 1)
-		s, t = np.array([s, t]) * self.__pyramid[level].shape[0:2] - .5
+		v, u = self.__pyramid[level].shape[0:2]
+		s, t = np.array([s, t]) * [u, v] - .5
 		s0, t0 = util.ftoi(s), util.ftoi(t)
 		ds = s - s0
 		dt = t - t0
@@ -353,7 +355,7 @@ class MIPMap(object):
 		if level >= self.__n_levels:
 			return self.texel(self.__n_levels - 1, 0, 0)
 		# convert EWA coord to proper scale for level
-		u, v = self.__pyramid[level].shape[0:2]
+		v, u = self.__pyramid[level].shape[0:2]
 		s = s * u - .5
 		t = t * v - .5
 		ds0 *= u
-- 
2.43.0


From eb68cf4f6ad4fc8acdb4eed9af5014f34454e4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:48 +0000
Subject: [PATCH 086/147] fix: anisotropic lookups failed on a misspelt call
 and a fractional table index, and sheared clamped ellipses

---
 pytracer/texture/utility.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 36d78fb..31c6d3d 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -381,7 +381,7 @@ class MIPMap(object):
 		det = -B * B + 4. * A * C
 		invDet = 1. / det
 		u_sq = np.sqrt(det * C)
-		v_sq = np.srqt(det * A)
+		v_sq = np.sqrt(det * A)
 		s0 = util.ctoi(s - 2. * invDet * u_sq)
 		s1 = util.ftoi(s + 2. * invDet * u_sq)
 		t0 = util.ctoi(t - 2. * invDet * v_sq)
@@ -398,7 +398,7 @@ class MIPMap(object):
 				r2 = A * ss * ss + B * ss * tt + C * tt * tt
 				if r2 < 1.:
 					# inside
-					wt = MIPMap.weight_lut[min(r2 * MIPMap.weight_lut_size, MIPMap.weight_lut_size - 1)]
+					wt = MIPMap.weight_lut[min(INT(r2 * MIPMap.weight_lut_size), MIPMap.weight_lut_size - 1)]
 					ret += self.texel(level, si, ti) * wt
 					sum_wt += wt
 
@@ -456,8 +456,8 @@ class MIPMap(object):
 			# clamp eccentricity if too large
 			if minor_len * self.max_aniso < major_len and minor_len > 0.:
 				scale = major_len / (minor_len * self.max_aniso)
-				ds0 *= scale
 				ds1 *= scale
+				dt1 *= scale
 				minor_len *= scale
 
 			if minor_len == 0.:
-- 
2.43.0


From 81ab3a3316ce44a6b0d88194fc216db6c7cbe660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:48 +0000
Subject: [PATCH 087/147] fix: black borders darkened the coarsest level and
 the levels of elongated images

---
 pytracer/texture/utility.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 31c6d3d..8c6e459 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -301,9 +301,9 @@ class MIPMap(object):
 				for s in range(s_res):
 					self.__pyramid[i][t, s] = \
 						.25 * (self.texel(i - 1, 2 * s, 2 * t) +
-						       self.texel(i - 1, 2 * s + 1, 2 * t) +
-						       self.texel(i - 1, 2 * s, 2 * t + 1) +
-						       self.texel(i - 1, 2 * s + 1, 2 * t + 1))
+						       self.texel(i - 1, min(2 * s + 1, u - 1), 2 * t) +
+						       self.texel(i - 1, 2 * s, min(2 * t + 1, v - 1)) +
+						       self.texel(i - 1, min(2 * s + 1, u - 1), min(2 * t + 1, v - 1)))
 
 				# init EVA filter weighted if needed
 		if MIPMap.weight_lut is None:
@@ -433,7 +433,7 @@ class MIPMap(object):
 			if level < 0:
 				return self.__triangle(0, s, t)
 			elif level >= self.__n_levels - 1:
-				return self.__triangle(self.__n_levels, 0, 0)
+				return self.texel(self.__n_levels - 1, 0, 0)
 			else:
 				i_level = util.ftoi(level)
 				delta = level - i_level
-- 
2.43.0


From 59eb3ddb0cbdead22af5f55a5df2329eb93ba35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 088/147] fix: image textures failed to convert their values,
 and one file could not serve both colours and numbers

---
 pytracer/texture/texture/image.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pytracer/texture/texture/image.py b/pytracer/texture/texture/image.py
index db243a5..4fcdb78 100644
--- a/pytracer/texture/texture/image.py
+++ b/pytracer/texture/texture/image.py
@@ -38,7 +38,8 @@ class ImageTexture(Texture):
 		"""
 
 		def __init__(self, filename: str, trilinear: bool, max_aniso: FLOAT, wrap: 'ImageWrap',
-		             scale: FLOAT, gamma: FLOAT):
+		             scale: FLOAT, gamma: FLOAT, type_mem: type = None):
+			self.type_mem = type_mem
 			self.filename = filename
 			self.trilinear = trilinear
 			self.max_aniso = max_aniso
@@ -48,12 +49,12 @@ class ImageTexture(Texture):
 
 		def __repr__(self):
 			return "{}\nFilename: {}\nTrilinear: {}\nMax Aniso: {}, Wrap: {}\nScale: {}, Gamma: {}" \
-				.format(self.__class__, self.trilinear, self.max_aniso, self.wrap, self.scale,
+				.format(self.__class__, self.filename, self.trilinear, self.max_aniso, self.wrap, self.scale,
 			            self.gamma)
 
 		def __hash__(self):
 			return hash((self.filename, self.trilinear, self.max_aniso, self.wrap,
-			             self.scale, self.gamma))
+			             self.scale, self.gamma, self.type_mem))
 
 		def __eq__(self, other):
 			return (self.filename == other.filename) and \
@@ -61,7 +62,8 @@ class ImageTexture(Texture):
 			       (self.max_aniso == other.max_aniso) and \
 			       (self.wrap == other.wrap) and \
 			       (self.scale == other.scale) and \
-			       (self.gamma == other.gamma)
+			       (self.gamma == other.gamma) and \
+			       (self.type_mem == other.type_mem)
 
 		def __ne__(self, other):
 			return not (self == other)
@@ -94,7 +96,7 @@ class ImageTexture(Texture):
 						type_mem is spec.RGBSpectrum:
 			return spec.RGBSpectrum( (scale * texel) ** gamma )
 		elif isinstance(texel, np.ndarray) and \
-						type_mem is (FLOAT or float):
+						type_mem in (FLOAT, float):
 			return (scale * spec.RGBSpectrum(texel).y()) ** gamma
 		else:
 			raise TypeError('src.core.texture.ImageTexture.__convert__in__: '
@@ -109,11 +111,11 @@ class ImageTexture(Texture):
 
 		# print(type(texel), type(type_ret))
 		# return Spectrum.from_rgb(texel)
-		if isinstance(texel, 'RGBSpectrum') and \
+		if isinstance(texel, spec.RGBSpectrum) and \
 						type_ret is Spectrum:
-			return Spectrum.from_rgb(texel.toRGB())
+			return Spectrum.from_rgb(texel.to_rgb())
 		elif (isinstance(texel, float) or isinstance(texel, FLOAT)) and \
-						type_ret is (float or FLOAT):
+						type_ret in (float, FLOAT):
 			return texel
 		else:
 			raise TypeError('src.core.texture.ImageTexture.__convert__in__: '
@@ -126,7 +128,7 @@ class ImageTexture(Texture):
 	def get_texture(self, filename: str, trilinear: bool, max_aniso: FLOAT,
 	                wrap: 'ImageWrap', scale: FLOAT, gamma: FLOAT) -> 'MIPMap':
 		# look in the cache
-		tex_info = ImageTexture.TexInfo(filename, trilinear, max_aniso, wrap, scale, gamma)
+		tex_info = ImageTexture.TexInfo(filename, trilinear, max_aniso, wrap, scale, gamma, self.type_mem)
 		if tex_info in ImageTexture.textures:
 			return ImageTexture.textures[tex_info]
 
@@ -149,7 +151,8 @@ class ImageTexture(Texture):
 
 		else:
 			# one-valued MIPMap
-			val = [[self.power(scale, gamma)]]
+			val = np.empty([1, 1], dtype=object)
+			val[0, 0] = self.type_mem(FLOAT(scale) ** gamma)
 			ret = MIPMap(self.type_mem, val)
 
 		ImageTexture.textures[tex_info] = ret
-- 
2.43.0


From ee5a2cbae2aafec7407ad0ca1de9cac12ff4305e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:13 +0000
Subject: [PATCH 089/147] fix: image textures failed on images that are not
 square

---
 pytracer/texture/texture/image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/texture/texture/image.py b/pytracer/texture/texture/image.py
index 4fcdb78..ddda05f 100644
--- a/pytracer/texture/texture/image.py
+++ b/pytracer/texture/texture/image.py
@@ -134,7 +134,7 @@ class ImageTexture(Texture):
 
 		try:
 			texels = iio.read_image(filename)
-			width, height = texels.shape[0:2]
+			height, width = texels.shape[0:2]
 		except:
 			print('{}.get_texture(): cannot process file {}, '
 			      'use default one-valued MIPMap'.format(self.__class__, filename))
@@ -152,7 +152,7 @@ class ImageTexture(Texture):
 		else:
 			# one-valued MIPMap
 			val = np.empty([1, 1], dtype=object)
-			val[0, 0] = self.type_mem(FLOAT(scale) ** gamma)
+			val[0, 0] = FLOAT(scale) ** gamma if self.type_mem in (FLOAT, float) else self.type_mem(scale ** gamma)
 			ret = MIPMap(self.type_mem, val)
 
 		ImageTexture.textures[tex_info] = ret
-- 
2.43.0


From 0ea3734e5c49f61a241acb58e320598bcdb2b1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:30 +0000
Subject: [PATCH 090/147] fix: noise had a constant gradient term and blended
 one face with the wrong weight, so it jumped between cells

---
 pytracer/texture/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 8c6e459..c8d20ec 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -108,7 +108,7 @@ def _grad(x: INT, y: INT, z: INT, dx, dy, dz):
 	u = dx if h < 8 or h == 12 or h == 13 else dy
 	v = dy if h < 4 or h == 12 or h == 13 else dz
 	if h & 1:
-		u = -1
+		u = -u
 	if h & 2:
 		v = -v
 	return u + v
@@ -160,7 +160,7 @@ def noise(pnt: 'geo.Point') -> FLOAT:
 	x01 = util.lerp(wx, w001, w101)
 	x11 = util.lerp(wx, w011, w111)
 	y0 = util.lerp(wy, x00, x10)
-	y1 = util.lerp(wz, x01, x11)
+	y1 = util.lerp(wy, x01, x11)
 	return util.lerp(wz, y0, y1)
 
 
-- 
2.43.0


From fb27865716a036dac23989facfaad9361ccd35ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:30 +0000
Subject: [PATCH 091/147] fix: the smooth step ignored its interval and fractal
 noise added to a builtin

---
 pytracer/texture/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index c8d20ec..72848e5 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -46,7 +46,7 @@ def smooth_step(lo: FLOAT, hi: FLOAT, val: FLOAT):
 
 	Clip but with smooth interpolation
 	"""
-	v = np.clip(val, lo, hi)
+	v = np.clip((val - lo) / (hi - lo), 0., 1.)
 	return v * v * (3. - 2. * v)
 
 
@@ -66,7 +66,7 @@ def FBm(p: 'geo.Point', dpdx: 'geo.Vector', dpdy: 'geo.Vector', omega: FLOAT, ma
 	l = 1.
 	o = 1.
 	for i in range(octaves):
-		sum += o * noise(l * p)
+		s += o * noise(l * p)
 		l *= 1.99  # not 2, since noise() returns 0. at integral grids
 		o *= omega
 	par = foct - octaves
-- 
2.43.0


From 7ace0698f88f8cabd70111347ec84b4f0d2c0e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:30 +0000
Subject: [PATCH 092/147] fix: anti-aliased checkerboards left the range of
 their two cells and divided by zero-width footprints

---
 pytracer/texture/texture/__init__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index e186e38..c0ad3c0 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -167,16 +167,19 @@ class Chekcerboard2DTexture(Texture):
 
 			## box filtering check region
 			# util.ftoi(x / 2) + 2. * max(x / 2 - util.ftoi(x / 2) -.5, 0)
-			si = ((util.ftoi(s1 / 2) + 2. * max(s1 / 2 - util.ftoi(s1 / 2) - .5, 0)) -
+			## a footprint without extent sees one cell
+			si = util.ftoi(s) % 2 if ds == 0. else \
+				 ((util.ftoi(s1 / 2) + 2. * max(s1 / 2 - util.ftoi(s1 / 2) - .5, 0)) -
 				  (util.ftoi(s0 / 2) + 2. * max(s0 / 2 - util.ftoi(s0 / 2) - .5, 0))) / \
 				 (2. * ds)
-			ti = ((util.ftoi(t1 / 2) + 2. * max(t1 / 2 - util.ftoi(t1 / 2) - .5, 0)) -
+			ti = util.ftoi(t) % 2 if dt == 0. else \
+				 ((util.ftoi(t1 / 2) + 2. * max(t1 / 2 - util.ftoi(t1 / 2) - .5, 0)) -
 				  (util.ftoi(t0 / 2) + 2. * max(t0 / 2 - util.ftoi(t0 / 2) - .5, 0))) / \
 				 (2. * dt)
-			area_sq = si * ti - 2. * si * ti
+			area_sq = si + ti - 2. * si * ti
 			if ds > 1. or dt > 1.:
 				area_sq = .5
-			return (1. - area_sq * self.tex1(dg)) + area_sq * self.tex2(dg)
+			return (1. - area_sq) * self.tex1(dg) + area_sq * self.tex2(dg)
 
 
 class Checkboard3DTexture(Texture):
-- 
2.43.0


From d20991a31cd047e0f743fa7d8d80d1c655a96ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:30 +0000
Subject: [PATCH 093/147] fix: dots called noise with two numbers and never
 showed the inside of a dot

---
 pytracer/texture/texture/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index c0ad3c0..03f5a2b 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -220,16 +220,16 @@ class DotsTexture(Texture):
 		from pytracer.texture.utility import noise
 
 		# return insidedot result if inside
-		if noise(sc + .5 , tc + .5) > 0. :
+		if noise([sc + .5, tc + .5, .5]) > 0. :
 			rad = .35
 			max_shift = .5 - rad
-			s_ctr = sc + max_shift * noise(sc + 1.5, tc + 2.8)
-			t_ctr = tc + max_shift * noise(sc + 4.5, tc + 9.8)
+			s_ctr = sc + max_shift * noise([sc + 1.5, tc + 2.8, .5])
+			t_ctr = tc + max_shift * noise([sc + 4.5, tc + 9.8, .5])
 			ds = s - s_ctr
 			dt = t - t_ctr
 			if ds * ds + dt * dt < rad * rad:
 				# inside
-				self.inside_dot(dg)
+				return self.inside_dot(dg)
 
 
 		return self.outside_dot(dg)
-- 
2.43.0


From d9fbc4b78eaf5bf0ef780013f5520b054422dd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:30 +0000
Subject: [PATCH 094/147] fix: marble read whole rows of its colour table as
 one colour and left the table

---
 pytracer/texture/texture/__init__.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pytracer/texture/texture/__init__.py b/pytracer/texture/texture/__init__.py
index 03f5a2b..b9d097f 100644
--- a/pytracer/texture/texture/__init__.py
+++ b/pytracer/texture/texture/__init__.py
@@ -298,7 +298,7 @@ class MarbleTexture(Texture):
 	spline = [  [ .58, .58, .6 ], [ .58, .58, .6 ], [ .58, .58, .6 ],
 				[ .5, .5, .5 ], [ .6, .59, .58 ], [ .58, .58, .6 ],
 				[ .58, .58, .6 ], [.2, .2, .33 ], [ .58, .58, .6 ], ]
-	spline_num = INT(27)
+	spline_num = INT(9)
 	def __init__(self, octaves: INT, roughness: FLOAT, scale: FLOAT, var: FLOAT, mapping: 'TextureMapping3D'):
 		self.octaves = octaves
 		self.omega = roughness
@@ -309,19 +309,17 @@ class MarbleTexture(Texture):
 	def __call__(self, dg: 'geo.DifferentialGeometry'):
 		from pytracer.texture.utility import FBm
 		p, dpdx, dpdy = self.mapping(dg)
-		p *= self.scale
+		p = p * self.scale
 		marble = p.y + self.var * FBm(p, self.scale * dpdx, self.scale * dpdy, self.omega, self.octaves)
-		wind = FBm(.1 * p, .1 * dpdx, .1 * dpdy, .5, 3)
-		wave = FBm(p, dpdx, dpdy, .5, 6)
-		t = .5 * .5 * np.sin(marble)
+		t = .5 + .5 * np.sin(marble)
 
 		# evaluate marble spline at $t$
-		fst = util.ftoi(t * self.spline_num - 3)
+		fst = min(util.ftoi(t * (self.spline_num - 3)), self.spline_num - 4)
 		t = t * (self.spline_num - 3) - fst
-		c0 = Spectrum.from_rgb(self.spline[fst:fst + 3])
-		c1 = Spectrum.from_rgb(self.spline[fst + 1:fst + 4])
-		c2 = Spectrum.from_rgb(self.spline[fst + 2:fst + 5])
-		c3 = Spectrum.from_rgb(self.spline[fst + 3:fst + 6])
+		c0 = Spectrum.from_rgb(self.spline[fst])
+		c1 = Spectrum.from_rgb(self.spline[fst + 1])
+		c2 = Spectrum.from_rgb(self.spline[fst + 2])
+		c3 = Spectrum.from_rgb(self.spline[fst + 3])
 
 		# Bezier spline evaluated with de Castilejau's algorithm
 		s0 = (1. - t) * c0 + t * c1
-- 
2.43.0


From 0072803498bd62f6f918aab9eec0dea0c432a476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:30 +0000
Subject: [PATCH 095/147] fix: cylindrical mapping referred to a missing
 function, and the footprints of round mappings mixed s with t and mishandled
 the seam

---
 pytracer/texture/texturemap/__init__.py | 32 ++++++++-----------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/pytracer/texture/texturemap/__init__.py b/pytracer/texture/texturemap/__init__.py
index e79113b..b7718be 100644
--- a/pytracer/texture/texturemap/__init__.py
+++ b/pytracer/texture/texturemap/__init__.py
@@ -76,19 +76,13 @@ class SphericalMapping2D(TextureMapping2D):
 
 		sx, tx = self.__sphere(dg.p + delta * dg.dpdx)
 		dsdx = (sx - s) / delta
-		dtdx = (tx - t) / delta
-		if dtdx > .5:
-			dtdx = 1. - dtdx
-		elif dtdx < -.5:
-			dtdx = -(dtdx + 1.)
+		# phi wraps around
+		dtdx = (tx - t - np.round(tx - t)) / delta
 
 		sy, ty = self.__sphere(dg.p + delta * dg.dpdy)
 		dsdy = (sy - s) / delta
-		dtdy = (ty - s) / delta
-		if dtdy > .5:
-			dtdy = 1. - dtdy
-		elif dtdy < -.5:
-			dtdy = -(dtdy + 1.)
+		# phi wraps around
+		dtdy = (ty - t - np.round(ty - t)) / delta
 
 		return [s, t, dsdx, dtdx, dsdy, dtdy]
 
@@ -104,7 +98,7 @@ class CylindricalMapping2D(TextureMapping2D):
 		[s, t].
 		"""
 		v = geo.normalize(self.w2t(p) - geo.Point(0., 0., 0.))
-		return [(PI + self.arctan2(v.y, v.x)) * INV_2PI, v.z]
+		return [(PI + np.arctan2(v.y, v.x)) * INV_2PI, v.z]
 
 	def __call__(self, dg: 'geo.DifferentialGeometry') -> [FLOAT]:
 		s, t = self.__cylinder(dg.p)
@@ -114,20 +108,14 @@ class CylindricalMapping2D(TextureMapping2D):
 		delta = .1
 
 		sx, tx = self.__cylinder(dg.p + delta * dg.dpdx)
-		dsdx = (sx - s) / delta
+		# phi wraps around
+		dsdx = (sx - s - np.round(sx - s)) / delta
 		dtdx = (tx - t) / delta
-		if dtdx > .5:
-			dtdx = 1. - dtdx
-		elif dtdx < -.5:
-			dtdx = -(dtdx + 1.)
 
 		sy, ty = self.__cylinder(dg.p + delta * dg.dpdy)
-		dsdy = (sy - s) / delta
-		dtdy = (ty - s) / delta
-		if dtdy > .5:
-			dtdy = 1. - dtdy
-		elif dtdy < -.5:
-			dtdy = -(dtdy + 1.)
+		# phi wraps around
+		dsdy = (sy - s - np.round(sy - s)) / delta
+		dtdy = (ty - t) / delta
 
 		return [s, t, dsdx, dtdx, dsdy, dtdy]
 
-- 
2.43.0


From 1ff6c145f55e3c19b8629d07c0a5a3287c573c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 096/147] fix: light power is a method of the scene, not a
 property

---
 pytracer/light/light.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index ecc0966..906567f 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -81,7 +81,6 @@ class Light(object, metaclass=ABCMeta):
 		raise NotImplementedError('src.core.light.{}.pdf(): abstract method '
 									'called'.format(self.__class__)) 		
 
-	@property
 	@abstractmethod
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		"""
@@ -144,7 +143,6 @@ class PointLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		return 4. * PI * self.intensity
 
@@ -207,7 +205,6 @@ class SpotLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		"""
 		power()
@@ -316,7 +313,6 @@ class ProjectionLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		"""
 		power()
@@ -401,7 +397,6 @@ class GonioPhotometricLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		return 4. * PI * self.intensity * Spectrum(self.MIPMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
 
@@ -451,7 +446,6 @@ class DistantLight(Light):
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		"""
 		power()
@@ -539,7 +533,6 @@ class DiffuseAreaLight(Light):
 
 
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		return self.emit * self.area * PI
 
@@ -677,7 +670,6 @@ class InfiniteAreaLight(Light):
 
 		return [ray, Ns, pdf, Spectrum.from_rgb(self.radMap.look_up([uv[0], uv[1]]), SpectrumType.ILLUMINANT)]
 
-	@property
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		_, rad = scene.world_bound().bounding_sphere()
 		return PI * rad * rad * Spectrum.from_rgb(self.radMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
-- 
2.43.0


From 85fa641000a17b46f1d640431cb9a2c03b8926e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 097/147] fix: emission sampling builds its ray with the time
 and its normal from an array

---
 pytracer/light/light.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 906567f..e214b4c 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -136,8 +136,8 @@ class PointLight(Light):
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
 		ray = geo.Ray(self.pos, mc.uniform_sample_sphere(ls.u_pos[0], ls.u_pos[1]),
-						0., np.inf, time)
-		Ns = geo.Normal.fromVector(ray.d)
+						0., np.inf, time=time)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_sphere_pdf()
 		return [ray, Ns, pdf, self.intensity]
 
@@ -198,8 +198,8 @@ class SpotLight(Light):
 		
 		v = mc.uniform_sample_cone(ls.u_pos[0], ls.u_pos[1], self.cos_width)
 
-		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time)
-		Ns = geo.Normal.fromVector(ray.d)
+		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time=time)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_cone_pdf(self.cos_width)
 		return [ray, Ns, pdf, self.intensity * self.__falloff(ray.d)]
 
@@ -306,8 +306,8 @@ class ProjectionLight(Light):
 		
 		v = mc.uniform_sample_cone(ls.u_pos[0], ls.u_pos[1], self.cos_width)
 
-		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time)
-		Ns = geo.Normal.fromVector(ray.d)
+		ray = geo.Ray(self.pos, self.l2w(v), 0., np.inf, time=time)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_cone_pdf(self.cos_width)
 		return [ray, Ns, pdf, self.intensity * self.__projection(ray.d)]
 
@@ -390,8 +390,8 @@ class GonioPhotometricLight(Light):
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
 		ray = geo.Ray(self.pos, mc.uniform_sample_sphere(ls.u_pos[0], ls.u_pos[1]),
-						0., np.inf, time)
-		Ns = geo.Normal.fromVector(ray.d)
+						0., np.inf, time=time)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_sphere_pdf()
 		return [ray, Ns, pdf, self.intensity * self.__scale(ray.d)]
 
@@ -439,8 +439,8 @@ class DistantLight(Light):
 		pnt = ctr + rad * (d1 * v1 + d2 * v2)
 
 		# set ray
-		ray = geo.Ray(pnt + rad * self.di, -self.di, 0., np.inf, time)
-		Ns = geo.Normal.fromVector(ray.d)
+		ray = geo.Ray(pnt + rad * self.di, -self.di, 0., np.inf, time=time)
+		Ns = geo.Normal.from_arr(ray.d)
 		pdf = 1. / (PI * rad * rad)
 		return [ray, Ns, pdf, self.l]
 
@@ -525,7 +525,7 @@ class DiffuseAreaLight(Light):
 		di = mc.uniform_sample_sphere(u1, u2)
 		if di.dot(Ns) < 0.:
 			di *= -1.
-		ray = geo.Ray(org, di, EPS, np.inf, time)
+		ray = geo.Ray(org, di, EPS, np.inf, time=time)
 		pdf = self.shape_set.pdf(org) * INV_2PI
 		return [ray, Ns, pdf, self.l(org, Ns, di)]
 
@@ -650,7 +650,7 @@ class InfiniteAreaLight(Light):
 		sp = np.sin(phi)
 		cp = np.cos(phi)
 		d = -self.l2w(geo.Vector(st * cp, st * sp, ct))
-		Ns = geo.Normal.fromVector(d)
+		Ns = geo.Normal.from_arr(d)
 
 		# choose point on disk oriented towards light
 		ctr, rad = scene.world_bound().bounding_sphere()
@@ -659,7 +659,7 @@ class InfiniteAreaLight(Light):
 		pnt = ctr + rad * (d1 * v1 + d2 * v2)
 
 		# set ray
-		ray = geo.Ray(pnt + rad * (-d), d, 0., np.inf, time)
+		ray = geo.Ray(pnt + rad * (-d), d, 0., np.inf, time=time)
 
 		# compute pdf
 		dir_pdf = pdf / (2. * PI * PI * st)
-- 
2.43.0


From 24032d62539871dd60b80c6c726d03adb0305d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 098/147] fix: spot, projection and goniometric lights scale by
 their profile and the squared distance

---
 pytracer/light/light.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index e214b4c..c356b99 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -191,7 +191,7 @@ class SpotLight(Light):
 		pdf = 1.
 		vis = VisibilityTester()
 		vis.set_segment(p, pEps, self.pos, 0., time)
-		return [self.intensity / self.__falloff(-wi), wi, pdf, vis]
+		return [self.intensity * self.__falloff(-wi) / (self.pos - p).sq_length(), wi, pdf, vis]
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
@@ -299,7 +299,7 @@ class ProjectionLight(Light):
 		pdf = 1.
 		vis = VisibilityTester()
 		vis.set_segment(p, pEps, self.pos, 0., time)
-		return [self.intensity / self.__projection(-wi), wi, pdf, vis]
+		return [self.intensity * self.__projection(-wi) / (self.pos - p).sq_length(), wi, pdf, vis]
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
@@ -385,7 +385,7 @@ class GonioPhotometricLight(Light):
 		pdf = 1.
 		vis = VisibilityTester()
 		vis.set_segment(p, pEps, self.pos, 0., time)
-		return [self.intensity / self.__scale(-wi), wi, pdf, vis]
+		return [self.intensity * self.__scale(-wi) / (self.pos - p).sq_length(), wi, pdf, vis]
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
-- 
2.43.0


From 943dcdaf948c375bc4b3ebfea2931880b791d9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 099/147] fix: projection light reads its image, aspect ratio
 and cone

---
 pytracer/light/light.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index c356b99..67499b9 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -234,12 +234,12 @@ class ProjectionLight(Light):
 		try:
 			import pytracer.utility.imageio as iio
 			texels = iio.read_image(texname)
-			width, height = np.shape(texels)
+			height, width = np.shape(texels)[:2]
 		except:
 			print('src.core.texture.{}.get_texture(): cannot process file {}, '
 					'use default one-valued MIPMap'.format(self.__class__, texname))
 			texels = None
-			width, height = 0, 0
+			width, height = 1, 1
 
 		if texels is not None:
 			from pytracer.texture import MIPMap
@@ -266,7 +266,7 @@ class ProjectionLight(Light):
 		self.proj_trans = trans.Transform.perspective(fov, self.hither, self.yon)
 
 		# compute cosine of cone
-		self.cos_width = np.cos(np.arctan(np.tan(np.deg2rad(fov) / 2.) * np.sqrt(1. + 1. / (aspect * aspect))))
+		self.cos_width = np.cos(np.arctan(np.tan(np.deg2rad(fov) / 2.) * np.sqrt(self.scr_x1 * self.scr_x1 + self.scr_y1 * self.scr_y1)))
 
 	def __projection(self, w: 'geo.Vector') -> 'Spectrum':
 		"""
@@ -291,7 +291,7 @@ class ProjectionLight(Light):
 
 		s = (pl.x - self.scr_x0) / (self.scr_x1 - self.scr_x0)
 		t = (pl.y - self.scr_y0) / (self.scr_y1 - self.scr_y0)
-		return Spectrum(self.projMap.look_up([s, t]), SpectrumType.ILLUMINANT) 
+		return Spectrum.from_rgb(self.projMap.look_up([s, t]), SpectrumType.ILLUMINANT) 
 
 	def sample_l(self, p: 'geo.Point', pEps: FLOAT, ls: 'LightSample',
 			time: FLOAT,) -> ['Spectrum', 'geo.Vector', FLOAT, 'VisibilityTester']:	
@@ -321,7 +321,9 @@ class ProjectionLight(Light):
 		diagonal of the image, scaled
 		by the average intensity.
 		"""
-		return Spectrum( self.projMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT) * \
+		if self.projMap is None:
+			return self.intensity * 2. * PI * (1. - self.cos_width)
+		return Spectrum.from_rgb(self.projMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT) * \
 					self.intensity * 2. * PI * (1. - self.cos_width)
 
 	def is_delta_light(self) -> bool:
-- 
2.43.0


From b3f4249184c7cbb38cb780ee1c4ee52caa5e5ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 100/147] fix: goniometric light reads its image and scales by
 it

---
 pytracer/light/light.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 67499b9..f34fd4f 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -345,7 +345,6 @@ class GonioPhotometricLight(Light):
 		try:
 			import pytracer.utility.imageio as iio
 			texels = iio.read_image(texname)
-			width, height = np.shape(texels)
 		except:
 			print('src.core.texture.{}.get_texture(): cannot process file {}, '
 					'use default one-valued MIPMap'.format(self.__class__, texname))
@@ -379,7 +378,7 @@ class GonioPhotometricLight(Light):
 		s = phi * INV_2PI
 		t = theta * INV_PI
 
-		return Spectrum(self.projMap.look_up([s, t]), SpectrumType.ILLUMINANT)
+		return Spectrum.from_rgb(self.MIPMap.look_up([s, t]), SpectrumType.ILLUMINANT)
 
 	def sample_l(self, p: 'geo.Point', pEps: FLOAT, ls: 'LightSample',
 			time: FLOAT,) -> ['Spectrum', 'geo.Vector', FLOAT, 'VisibilityTester']:	
@@ -400,7 +399,9 @@ class GonioPhotometricLight(Light):
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
 	def power(self, scene: 'Scene') -> 'Spectrum':
-		return 4. * PI * self.intensity * Spectrum(self.MIPMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
+		if self.MIPMap is None:
+			return 4. * PI * self.intensity
+		return 4. * PI * self.intensity * Spectrum.from_rgb(self.MIPMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
 
 	def is_delta_light(self) -> bool:
 		return True
-- 
2.43.0


From ec7d4cad3940f9c6581d5b9f8412459323aa46b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 101/147] fix: distant light shadow rays

---
 pytracer/light/light.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index f34fd4f..b2c2228 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -425,7 +425,7 @@ class DistantLight(Light):
 		wi = self.di.copy()
 		pdf = 1.
 		vis = VisibilityTester()
-		vis.set_ray(p, pEps, self.pos, wi, time)
+		vis.set_ray(p, pEps, wi, time)
 		return [self.l.copy(), wi, pdf, vis]
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
-- 
2.43.0


From dd78b69d288129377d0fa4b645c312e3435b51e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 102/147] fix: area light knows its total area and shoots rays
 with the area density

---
 pytracer/light/light.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index b2c2228..2d99ebf 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -495,7 +495,7 @@ class DiffuseAreaLight(Light):
 		super().__init__(l2w, ns)
 		self.emit = emit
 		self.shape_set = ShapeSet(shape)
-		self.area = self.shape_set.areas
+		self.area = self.shape_set.sum_area
 
 	# debugging purposes only
 	def le(self, rd: 'geo.RayDifferential'):
@@ -529,7 +529,7 @@ class DiffuseAreaLight(Light):
 		if di.dot(Ns) < 0.:
 			di *= -1.
 		ray = geo.Ray(org, di, EPS, np.inf, time=time)
-		pdf = self.shape_set.pdf(org) * INV_2PI
+		pdf = self.shape_set.pdf_p(org) * INV_2PI
 		return [ray, Ns, pdf, self.l(org, Ns, di)]
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return self.shape_set.pdf(p, wi)
-- 
2.43.0


From 1c623ff41cb5a35aba4f8e8c044e4faf88f9ca53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 103/147] fix: area lights do not light rays that miss them

---
 pytracer/light/light.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 2d99ebf..8724c42 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -497,10 +497,6 @@ class DiffuseAreaLight(Light):
 		self.shape_set = ShapeSet(shape)
 		self.area = self.shape_set.sum_area
 
-	# debugging purposes only
-	def le(self, rd: 'geo.RayDifferential'):
-		return self.emit
-
 	def l(self, p: 'geo.Point', n: 'geo.Normal', w: 'geo.Vector') -> 'Spectrum':
 		return self.emit if n.dot(w) > 0. else Spectrum(0.)
 
-- 
2.43.0


From 1b0ae1859b55aee51aeb57027311babd5af1d7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:35 +0000
Subject: [PATCH 104/147] fix: area and distant lights hand out copies of their
 emission

---
 pytracer/light/light.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 8724c42..2713f97 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -139,7 +139,7 @@ class PointLight(Light):
 						0., np.inf, time=time)
 		Ns = geo.Normal.from_arr(ray.d)
 		pdf = mc.uniform_sphere_pdf()
-		return [ray, Ns, pdf, self.intensity]
+		return [ray, Ns, pdf, self.intensity.copy()]
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
@@ -445,7 +445,7 @@ class DistantLight(Light):
 		ray = geo.Ray(pnt + rad * self.di, -self.di, 0., np.inf, time=time)
 		Ns = geo.Normal.from_arr(ray.d)
 		pdf = 1. / (PI * rad * rad)
-		return [ray, Ns, pdf, self.l]
+		return [ray, Ns, pdf, self.l.copy()]
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT: return 0.
 
@@ -498,7 +498,7 @@ class DiffuseAreaLight(Light):
 		self.area = self.shape_set.sum_area
 
 	def l(self, p: 'geo.Point', n: 'geo.Normal', w: 'geo.Vector') -> 'Spectrum':
-		return self.emit if n.dot(w) > 0. else Spectrum(0.)
+		return self.emit.copy() if n.dot(w) > 0. else Spectrum(0.)
 
 	# TODO use MCMC
 	# def sample_l(self, p: 'geo.Point', pEps: FLOAT, ls: 'LightSample',
-- 
2.43.0


From 6221d227e4198ad2641aa3e2d652e7b99a46f945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:02 +0000
Subject: [PATCH 105/147] fix: environment light reads its map and is looked up
 with one (s, t) pair

---
 pytracer/light/light.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 2713f97..609d962 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -559,7 +559,7 @@ class InfiniteAreaLight(Light):
 			try:
 				import pytracer.utility.imageio as iio
 				texels = iio.read_image(texmap)
-				width, height = np.shape(texels)
+				height, width = np.shape(texels)[:2]
 			except:
 				print('src.core.texture.{}.get_texture(): cannot process file {}, '
 				'use default one-valued MIPMap'.format(self.__class__, texmap))
@@ -590,7 +590,7 @@ class InfiniteAreaLight(Light):
 		wh = geo.normalize(self.w2l(rd.d))
 		s = geo.spherical_phi(wh) * INV_2PI
 		t = geo.spherical_theta(wh) * INV_PI
-		return Spectrum.from_rgb(self.radMap.look_up(s, t), SpectrumType.ILLUMINANT)
+		return Spectrum.from_rgb(self.radMap.look_up([s, t]), SpectrumType.ILLUMINANT)
 
 	def sample_l(self, p: 'geo.Point', pEps: FLOAT, ls: 'LightSample',
 			time: FLOAT,) -> ['Spectrum', 'geo.Vector', FLOAT, 'VisibilityTester']:	
-- 
2.43.0


From 5994e8a1d5c1930feedb5b5679f050a2a53defdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:02 +0000
Subject: [PATCH 106/147] fix: environment light samples by area-weighted
 brightness, covering interpolated texels, and reports that density

---
 pytracer/light/light.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 609d962..ff5b01f 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -574,14 +574,16 @@ class InfiniteAreaLight(Light):
 		# init sampling PDFs <725>
 		# compute image for envir. map
 		img = np.empty([height, width], dtype=FLOAT)
-		filt = 1. / max(width, height)
+		# wide enough to cover the neighbouring texels
+		# interpolated towards the border of each cell
+		filt = 2. / max(width, height)
 
 		for v in range(height):
-			vp = v / height
+			vp = (v + .5) / height
 			st = np.sin(PI * (v + .5) / height)
 			for u in range(width):
-				up = u / width
-				img[v][u] = self.radMap.look_up([up, vp, filt]).y()
+				up = (u + .5) / width
+				img[v][u] = self.radMap.look_up([up, vp, filt]).y() * st
 
 		# compute sampling distribution
 		self.dist = mc.Distribution2D(img)
@@ -610,8 +612,8 @@ class InfiniteAreaLight(Light):
 		# compute pdf for sampled inf light direction
 		if st == 0.:
 			pdf = 0.
-		pdf = pdf / (2. * PI * PI * st)
-
+		else:
+			pdf = pdf / (2. * PI * PI * st)
 
 		# return radiance value
 		vis = VisibilityTester()
@@ -621,14 +623,14 @@ class InfiniteAreaLight(Light):
 					wi, pdf, vis]
 
 	def pdf(self, p: 'geo.Point', w: 'geo.Vector') -> FLOAT:
-		wi = self.w2l(w)
+		wi = geo.normalize(self.w2l(w))
 		theta = geo.spherical_theta(wi)
 		phi = geo.spherical_phi(wi)
 		st = np.sin(theta)
 		if st == 0.:
 			return 0.
-		return self.dist.pdf(phi * INV_2PI, theta * INV_PI / 
-				(2. * PI * PI * st))
+		return self.dist.pdf(phi * INV_2PI, theta * INV_PI) / \
+				(2. * PI * PI * st)
 
 	def sample_r(self, scene: 'Scene', ls: 'LightSample', u1: FLOAT, 
 					u2: FLOAT, time: FLOAT) -> ['geo.Ray', 'geo.Normal', FLOAT, 'Spectrum']:
-- 
2.43.0


From e4818b79acbe1f638d867e1b19626e4ff957c626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:02 +0000
Subject: [PATCH 107/147] fix: environment light shoots rays from a disk facing
 the sampled direction

---
 pytracer/light/light.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index ff5b01f..97431d6 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -655,19 +655,20 @@ class InfiniteAreaLight(Light):
 
 		# choose point on disk oriented towards light
 		ctr, rad = scene.world_bound().bounding_sphere()
-		_, v1, v2 = geo.coordinate_system(self.di)
-		d1, d2 = mc.concentric_sample_disk(ls.u_pos[0], ls.u_pos[1])
+		_, v1, v2 = geo.coordinate_system(d)
+		d1, d2 = mc.concentric_sample_disk(u1, u2)
 		pnt = ctr + rad * (d1 * v1 + d2 * v2)
 
 		# set ray
 		ray = geo.Ray(pnt + rad * (-d), d, 0., np.inf, time=time)
 
 		# compute pdf
-		dir_pdf = pdf / (2. * PI * PI * st)
-		area_pdf = 1. / (PI * rad * rad)
-		pdf = dir_pdf * area_pdf
 		if st == 0.:
-			pdf == 0.
+			pdf = 0.
+		else:
+			dir_pdf = pdf / (2. * PI * PI * st)
+			area_pdf = 1. / (PI * rad * rad)
+			pdf = dir_pdf * area_pdf
 
 		return [ray, Ns, pdf, Spectrum.from_rgb(self.radMap.look_up([uv[0], uv[1]]), SpectrumType.ILLUMINANT)]
 
-- 
2.43.0


From 7827117880673e8df90a171e11779609d6eb4aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:02 +0000
Subject: [PATCH 108/147] fix: environment light power integrates over all
 directions

---
 pytracer/light/light.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 97431d6..809e246 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -674,7 +674,7 @@ class InfiniteAreaLight(Light):
 
 	def power(self, scene: 'Scene') -> 'Spectrum':
 		_, rad = scene.world_bound().bounding_sphere()
-		return PI * rad * rad * Spectrum.from_rgb(self.radMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
+		return 4. * PI * PI * rad * rad * Spectrum.from_rgb(self.radMap.look_up([.5, .5, .5]), SpectrumType.ILLUMINANT)
 
 	def is_delta_light(self) -> bool:
 		return False
-- 
2.43.0


From d8ddf153799502567a279fdd4d7ac11252d4a957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:02 +0000
Subject: [PATCH 109/147] fix: density of an area light is that of its nearest
 shape

---
 pytracer/light/utility.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pytracer/light/utility.py b/pytracer/light/utility.py
index ccb9dc7..dffa61d 100644
--- a/pytracer/light/utility.py
+++ b/pytracer/light/utility.py
@@ -126,10 +126,20 @@ class ShapeSet(object):
 		return [pt, ns]
 
 	def pdf(self, p: 'geo.Point', wi: 'geo.Vector') -> FLOAT:
-		pdf = 0.
+		# the light arriving along `wi` leaves the closest shape
+		if len(self.shapes) == 1:
+			return self.shapes[0].pdf_p(p, wi)
+
+		ray = geo.Ray(p, wi, EPS)
+		closest = None
 		for i, sh in enumerate(self.shapes):
-			pdf += self.areas[i] * sh.pdf_p(p, wi)
-		return pdf / self.sum_area
+			hit, thit, _, _ = sh.intersect(ray)
+			if hit:
+				ray.maxt = thit
+				closest = i
+		if closest is None:
+			return 0.
+		return self.areas[closest] * self.shapes[closest].pdf_p(p, wi) / self.sum_area
 
 	def pdf_p(self, p: 'geo.Point') -> FLOAT:
 		pdf = 0.
-- 
2.43.0


From f470acb3226108dcd2d2d0e678a47b1d0ba56a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:02 +0000
Subject: [PATCH 110/147] fix: visibility tester keeps the ray it is given

---
 pytracer/light/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/light/utility.py b/pytracer/light/utility.py
index dffa61d..3297e3f 100644
--- a/pytracer/light/utility.py
+++ b/pytracer/light/utility.py
@@ -26,7 +26,7 @@ class VisibilityTester(object):
 	VisibilityTester Class
 	"""
 	def __init__(self, ray: 'geo.Ray'=None):
-		self.ray = None
+		self.ray = ray
 
 	def __repr__(self):
 		return "{}\ngeo.Ray: {}\n".format(self.__class__, self.ray)
-- 
2.43.0


From 023e9fd7090386a8b26c0fe9e6c755fb90f3e67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:14 +0000
Subject: [PATCH 111/147] fix: direct lighting adds the scattering-sampled half
 of its estimate

---
 pytracer/integrator/utility.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index 6ee7a79..73cea61 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -209,6 +209,7 @@ def estimate_direct(scene: 'Scene', renderer: 'Renderer', light: 'Light', p:'geo
 	Estimate direct lighting
 	using MC Multiple Importance Sampling.
 	"""
+	from pytracer.aggregate import Intersection
 	from pytracer.reflection import BDFType
 	Ld = Spectrum(0.)
 	# sample light source
@@ -219,7 +220,7 @@ def estimate_direct(scene: 'Scene', renderer: 'Renderer', light: 'Light', p:'geo
 			# add contribution to reflected radiance
 			## account for attenuation due to participating media,
 			## left for `VolumeIntegrator` to do
-			Li *= vis.transmittance(scene, renderer, None, rng)
+			Li = Li * vis.transmittance(scene, renderer, None, rng)
 			if light.is_delta_light():
 				Ld += f * Li * (wi.abs_dot(n) / light_pdf)
 			else:
@@ -234,25 +235,26 @@ def estimate_direct(scene: 'Scene', renderer: 'Renderer', light: 'Light', p:'geo
 		bsdf_pdf, wi, smp_type, f = bsdf.sample_f(wo, bsdf_smp, flags)
 		if not util.is_black(f) and bsdf_pdf > 0.:
 			wt = 1.
-			if not (smp_type & BDFType.SPECULAR).v == 0:  # MIS not apply to specular direction
+			if not (smp_type & BDFType.SPECULAR):  # MIS not apply to specular direction
 				light_pdf = light.pdf(p, wi)
 				if light_pdf == 0.:
 					return Ld
 				from pytracer.montecarlo import power_heuristic
 				wt = power_heuristic(1, bsdf_pdf, 1, light_pdf)
-				# add contribution
-				Li = Spectrum(0.)
-				ray = geo.RayDifferential(p, wi, r_eps, np.inf, time)
-				hit, light_isect = scene.intersect(ray)
-				if hit:
-					if light_isect.primitive.get_area_light() == light:
-						Li = light_isect.le(-wi)
-				else:
-					Li = light.le(ray) # light illum.
-
-				if not util.is_black(Li):
-					Li *= renderer.transmittance(scene, ray, None, rng) # attenuation
-					Ld += f * Li * wi.abs_dot(n) * wt / bsdf_pdf
+
+			# add contribution
+			Li = Spectrum(0.)
+			ray = geo.RayDifferential(p, wi, r_eps, np.inf, time=time)
+			light_isect = Intersection()
+			if scene.intersect(ray, light_isect):
+				if light_isect.primitive.get_area_light() == light:
+					Li = light_isect.le(-wi)
+			else:
+				Li = light.le(ray) # light illum.
+
+			if not util.is_black(Li):
+				Li = Li * renderer.transmittance(scene, ray, None, rng) # attenuation
+				Ld += f * Li * wi.abs_dot(n) * wt / bsdf_pdf
 
 	return Ld
 
-- 
2.43.0


From 9365c7f009df66f803949a3942978815be1382b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:14 +0000
Subject: [PATCH 112/147] fix: specular transmission used the transmittance as
 radiance

---
 pytracer/integrator/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index 73cea61..7c8357f 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -194,7 +194,7 @@ def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersec
 			rd.rxDirection = wi + eta * dwodx - geo.Vector.from_arr(mu * dndx + dmudx * n)
 			rd.ryDirection = wi + eta * dwody - geo.Vector.from_arr(mu * dndy + dmudy * n)
 
-		_, Li = renderer.li(scene, rd, sample, isect, rng)
+		Li, _ = renderer.li(scene, rd, sample, isect, rng)
 		L = f * Li * wi.abs_dot(n) / pdf
 
 	return L
-- 
2.43.0


From f7b94787e1e994fbea94aca0ffe4d27c64858e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:14 +0000
Subject: [PATCH 113/147] fix: secondary specular rays do not overwrite the hit
 they start from

---
 pytracer/integrator/utility.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index 7c8357f..d6bdd44 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -119,6 +119,7 @@ def uniform_sample_one_light(scene: 'Scene', renderer: 'Renderer', p: 'geo.Point
 
 def specular_reflect(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersection',
                      renderer: 'Renderer', scene: 'Scene', sample: 'Sample', rng) -> 'Spectrum':
+	from pytracer.aggregate import Intersection
 	from pytracer.reflection import (BDFType, BSDFSample)
 
 	wo = -ray.d
@@ -149,7 +150,7 @@ def specular_reflect(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersect
 			rd.rxDirection = wi - dwodx + 2. * geo.Vector.from_arr(wo.dot(n) * dndx + dDNdx * n)
 			rd.ryDirection = wi - dwody + 2. * geo.Vector.from_arr(wo.dot(n) * dndy + dDNdy * n)
 
-		Li, _ = renderer.li(scene, rd, sample, isect, rng)
+		Li, _ = renderer.li(scene, rd, sample, Intersection(), rng)
 		L = f * Li * wi.abs_dot(n) / pdf
 
 	return L
@@ -157,6 +158,7 @@ def specular_reflect(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersect
 
 def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersection',
                       renderer: 'Renderer', scene: 'Scene', sample: 'Sample', rng) -> 'Spectrum':
+	from pytracer.aggregate import Intersection
 	from pytracer.reflection import (BDFType, BSDFSample)
 	wo = -ray.d
 	p = bsdf.dgs.p
@@ -194,7 +196,7 @@ def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersec
 			rd.rxDirection = wi + eta * dwodx - geo.Vector.from_arr(mu * dndx + dmudx * n)
 			rd.ryDirection = wi + eta * dwody - geo.Vector.from_arr(mu * dndy + dmudy * n)
 
-		Li, _ = renderer.li(scene, rd, sample, isect, rng)
+		Li, _ = renderer.li(scene, rd, sample, Intersection(), rng)
 		L = f * Li * wi.abs_dot(n) / pdf
 
 	return L
-- 
2.43.0


From 4ff726280c9e18322ea8581001c09f5c3f0fd4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:15 +0000
Subject: [PATCH 114/147] fix: media attenuate every edge of a path

---
 pytracer/integrator/surface/path.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pytracer/integrator/surface/path.py b/pytracer/integrator/surface/path.py
index 0d30e6a..b5c22be 100644
--- a/pytracer/integrator/surface/path.py
+++ b/pytracer/integrator/surface/path.py
@@ -134,8 +134,7 @@ class PathIntegrator(SurfaceIntegrator):
 						L += path_throughput * light.le(ray)
 				break
 			# print('###')
-			if bounce_cnt > 1:
-				path_throughput *= renderer.transmittance(scene, ray, None, rng)
+			path_throughput *= renderer.transmittance(scene, ray, None, rng)
 
 			isectp = local_isect
 
-- 
2.43.0


From 0bb72e558cf36455d9444743ff48462509d6a73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:15 +0000
Subject: [PATCH 115/147] fix: transmittance default generator is the function,
 not its name

---
 pytracer/renderer/renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/renderer/renderer.py b/pytracer/renderer/renderer.py
index 8c82b83..152e846 100644
--- a/pytracer/renderer/renderer.py
+++ b/pytracer/renderer/renderer.py
@@ -75,7 +75,7 @@ class SamplerRenderer(Renderer):
 			return li, Spectrum(0.)
 
 	def transmittance(self, scene: 'Scene', ray: 'geo.RayDifferential', sample: 'Sample',
-									rng='np.random.rand') -> 'Spectrum':
+									rng=np.random.rand) -> 'Spectrum':
 		if self.vol_integrator is not None:
 			return self.vol_integrator.transmittance(scene, self, ray, sample, rng)
 		else:
-- 
2.43.0


From eefe36bc1dd83c24f01288c430859b5f5e1690e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:51 +0000
Subject: [PATCH 116/147] fix: camera rays that miss everything show the
 background lights

---
 pytracer/renderer/renderer.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pytracer/renderer/renderer.py b/pytracer/renderer/renderer.py
index 152e846..9cd80e8 100644
--- a/pytracer/renderer/renderer.py
+++ b/pytracer/renderer/renderer.py
@@ -165,16 +165,14 @@ class SamplerRendererTask(object):
 				wt, rays[i] = self.camera.generate_ray_differential(sample)
 				rays[i].scale_differential(1. / np.sqrt(sampler.spp))
 
-				hit = self.scene.intersect_p(rays[i])
-
 				if self.vis_obj_id:
-					if hit and wt > 0.:
+					if wt > 0. and self.scene.intersect_p(rays[i]):
 						# random shading
 						Ls[i] = Spectrum.from_rgb([1., 1., 1.])
 					else:
 						Ls[i] = Spectrum(0.)
 				else:
-					if hit and wt > 0.:
+					if wt > 0.:
 						Ls[i], Ts[i] = self.renderer.li(self.scene, rays[i], sample, isects[i], rng)
 						Ls[i] *= wt
 
-- 
2.43.0


From 7aebc46279a929d893e5e86ff5e98808d6c007b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:51 +0000
Subject: [PATCH 117/147] fix: render returns the image it stores

---
 pytracer/renderer/renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/renderer/renderer.py b/pytracer/renderer/renderer.py
index 9cd80e8..b998e04 100644
--- a/pytracer/renderer/renderer.py
+++ b/pytracer/renderer/renderer.py
@@ -108,7 +108,7 @@ class SamplerRenderer(Renderer):
 		# wait_for_tasks()
 		# render_tasks[0]()
 		# store result
-		self.camera.film.write_image()
+		return self.camera.film.write_image()
 
 
 class SamplerRendererTask(object):
-- 
2.43.0


From a2714fe6cc5485c96fd8ecee29e8def21a84a16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:52 +0000
Subject: [PATCH 118/147] fix: radiance of undefined luminance is invalid

---
 pytracer/renderer/renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/renderer/renderer.py b/pytracer/renderer/renderer.py
index b998e04..4cb49a8 100644
--- a/pytracer/renderer/renderer.py
+++ b/pytracer/renderer/renderer.py
@@ -186,7 +186,7 @@ class SamplerRendererTask(object):
 				elif Ls[i].y() < -EPS:
 					util.logging('Error', 'Negative luminance {} returned, setting to black.'.format(Ls[i].y()))
 					Ls[i] = Spectrum(0.)
-				elif Ls[i].y() == np.inf:
+				elif not np.isfinite(Ls[i].y()):
 					util.logging('Error', 'Infinite luminance returned, setting to balck.')
 					Ls[i] = Spectrum(0.)
 
-- 
2.43.0


From 9717887c9a739b7af11fbe8cc63e67f072b6d4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:52 +0000
Subject: [PATCH 119/147] fix: auxiliary rays parallel to the surface leave no
 differentials instead of failing

---
 pytracer/geometry/diffgeom.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pytracer/geometry/diffgeom.py b/pytracer/geometry/diffgeom.py
index 8d97871..b5bc7be 100644
--- a/pytracer/geometry/diffgeom.py
+++ b/pytracer/geometry/diffgeom.py
@@ -63,9 +63,15 @@ class DifferentialGeometry(object):
 
 			#  dot product between Normal and Point is defined =D
 			tx = -(self.nn.dot(ray.rxOrigin) + d) / (self.nn.dot(ray.rxDirection))
-			px = ray.rxOrigin + tx * ray.rxDirection
-
 			ty = -(self.nn.dot(ray.ryOrigin) + d) / (self.nn.dot(ray.ryDirection))
+
+			if not np.isfinite(tx) or not np.isfinite(ty):
+				# an incremental ray never meets the tangent plane
+				self.dudx = self.dvdx = self.dudy = self.dvdy = FLOAT(0.)
+				self.dpdx = self.dpdy = Vector(0., 0., 0.)
+				return
+
+			px = ray.rxOrigin + tx * ray.rxDirection
 			py = ray.ryOrigin + ty * ray.ryDirection
 
 			self.dpdx = px - self.p
-- 
2.43.0


From b42220e9b2d3ac2243c7623a4dfd4da69e1ae4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 120/147] fix: bump mapping works and follows the displaced
 surface

---
 pytracer/material/material.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 456e7fd..802a756 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -72,7 +72,7 @@ class Material(object, metaclass=ABCMeta):
 
 		# shift du in v
 		dv = .5 * (np.fabs(dgs.dvdx) + np.fabs(dgs.dvdy))
-		if dv == 0.1:
+		if dv == 0.:
 			dv = 0.01
 		dg.p = dgs.p + dv * dgs.dpdv
 		dg.u = dgs.u
@@ -86,9 +86,13 @@ class Material(object, metaclass=ABCMeta):
 		# compute bump mapped dg
 		dg = dgs.copy()
 
-		# geo.Vector * geo.Normal -> geo.Vector
-		dg.dpdu = dgs.dpdu + (u_disp - disp) / du * dgs.nn + disp * geo.Vector.fromNormal(dgs.dndu)
-		dg.dpdv = dgs.dpdv + (v_disp - disp) / dv * dgs.nn + disp * geo.Vector.fromNormal(dgs.dndv)
+		nn = geo.Vector.from_arr(dgs.nn)
+		dndu, dndv = geo.Vector.from_arr(dgs.dndu), geo.Vector.from_arr(dgs.dndv)
+		if dgs.nn.dot(dgs.dpdu.cross(dgs.dpdv)) < 0.:
+			# the normal is flipped, so are its derivatives
+			dndu, dndv = -dndu, -dndv
+		dg.dpdu = dgs.dpdu + (u_disp - disp) / du * nn + disp * dndu
+		dg.dpdv = dgs.dpdv + (v_disp - disp) / dv * nn + disp * dndv
 		dg.nn = geo.Normal.from_arr(geo.normalize(dg.dpdu.cross(dg.dpdv)))
 		if dgs.shape.ro ^ dgs.shape.transform_swaps_handedness:
 			dg.nn *= -1.
-- 
2.43.0


From 394db61803298862f1a493d8e873f643775fd39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 121/147] fix: mixed materials blend the lobes of both

---
 pytracer/material/material.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 802a756..416f7e9 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -396,9 +396,9 @@ class MixMaterial(Material):
 		s1 = self.scale(dg_s).clip()
 		s2 = (Spectrum(1.) - s1).clip()
 
-		for i, b in b1.bdfs:
+		for i, b in enumerate(b1.bdfs):
 			b1.bdfs[i] = ScaledBDF(b, s1)
-		for i, b in b2.bdfs:
+		for b in b2.bdfs:
 			b1.push_back(ScaledBDF(b, s2))
 
 		return b1
-- 
2.43.0


From 0aa46937862a29141efdbb40493dea57b96fae68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 122/147] fix: subsurface material keeps its clamped
 reflectance

---
 pytracer/material/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 416f7e9..bc392f6 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -550,7 +550,7 @@ class SubsurfaceMaterial(Material):
 			dgs = Material.bump(self.bump_map, dg_g, dg_s)
 		else:
 			dgs = dg_s.copy()
-		util.clip(R = self.kr(dgs))
+		R = util.clip(self.kr(dgs))
 		bsdf = BSDF(dgs, dg_g.nn)
 
 		if not util.is_black(R):
-- 
2.43.0


From 9622c10601fa39d857dd04476a3c3dd44dafaeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 123/147] fix: measured material reuses cached data of its own
 file

---
 pytracer/material/material.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index bc392f6..cc53c5e 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -433,9 +433,10 @@ class MeasuredMaterial(Material):
 
 		# Irregular Sampled Isotropic BRDF
 		if ext == '.brdf' or ext == '.BRDF':
-			if file in IrIsotropicData:
+			path = os.path.abspath(filename)
+			if path in IrIsotropicData:
 				# already read
-				self.theta_phi_sample, self.theta_phi_tree = IrIsotropicData[file]
+				self.theta_phi_samples, self.theta_phi_tree = IrIsotropicData[path]
 				return
 
 			# read file
@@ -486,7 +487,7 @@ class MeasuredMaterial(Material):
 
 			self.theta_phi_samples = np.array(samples, dtype=object)
 			self.theta_phi_tree = KdTree(tree_data)
-			IrIsotropicData[file] = [self.theta_phi_samples, self.theta_phi_tree]
+			IrIsotropicData[path] = [self.theta_phi_samples, self.theta_phi_tree]
 
 		elif ext == '.binary':
 			# Regular Halfangle BRDF
-- 
2.43.0


From 643978a0c32d19ddb3d78373f415b93cbd4670e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 124/147] fix: plastic and uber materials are dense inside, not
 outside

---
 pytracer/material/material.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index cc53c5e..058db3b 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -180,7 +180,7 @@ class PlasticMaterial(Material):
 		# diffuse
 		kd = self.Kd(dgs).clip()
 		diff = Lambertian(kd)
-		fresnel = FresnelDielectric(1.5, 1.)
+		fresnel = FresnelDielectric(1., 1.5)
 
 		# glossy specular
 		ks = self.Ks(dgs).clip()
@@ -352,18 +352,18 @@ class UberMaterial(Material):
 		e = self.eta(dgs)
 		ks = op * self.Ks(dgs).clip()
 		if not ks.is_black():
-			fresnel = FresnelDielectric(e, 1.)
+			fresnel = FresnelDielectric(1., e)
 			rough = self.roughness(dgs)
 			bsdf.push_back(Microfacet(ks, fresnel,Blinn(1. / rough)))
 
 		kr = op * self.Kr(dgs).clip()
 		if not kr.is_black():
-			fresnel = FresnelDielectric(e, 1.)
+			fresnel = FresnelDielectric(1., e)
 			bsdf.push_back(SpecularReflection(kr, fresnel))
 
 		kt = op * self.Kt(dgs).clip()
 		if not kt.is_black():
-			bsdf.push_back(SpecularTransmission(kt, e, 1.))
+			bsdf.push_back(SpecularTransmission(kt, 1., e))
 
 		return bsdf
 
-- 
2.43.0


From b8f06c2dfcdc714b9ecda4d766c10ef14c08e747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 125/147] fix: zero roughness gives the sharpest highlight
 instead of a division by zero

---
 pytracer/material/material.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 058db3b..87110af 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -103,6 +103,11 @@ class Material(object, metaclass=ABCMeta):
 		return dg
 
 
+def blinn_exponent(rough: FLOAT) -> FLOAT:
+	"""Exponent of the `Blinn` distribution; roughness below zero counts as zero"""
+	return 1. / rough if rough > 0. else np.inf
+
+
 class MatteMaterial(Material):
 	"""
 	MatteMaterial Class
@@ -185,7 +190,7 @@ class PlasticMaterial(Material):
 		# glossy specular
 		ks = self.Ks(dgs).clip()
 		rough = self.roughness(dgs)
-		spec = Microfacet(ks, fresnel, Blinn(1. / rough))
+		spec = Microfacet(ks, fresnel, Blinn(blinn_exponent(rough)))
 
 		bsdf.push_back(diff)
 		bsdf.push_back(spec)
@@ -254,7 +259,7 @@ class MetalMaterial(Material):
 		bsdf = BSDF(dgs, dg_g.nn)
 
 		rough = self.roughness(dgs)
-		md = Blinn(1. / rough)
+		md = Blinn(blinn_exponent(rough))
 		fr = FresnelConductor(self.eta(dgs), self.k(dgs))
 
 		bsdf.push_back(Microfacet(Spectrum(1.), fr, md))
@@ -354,7 +359,7 @@ class UberMaterial(Material):
 		if not ks.is_black():
 			fresnel = FresnelDielectric(1., e)
 			rough = self.roughness(dgs)
-			bsdf.push_back(Microfacet(ks, fresnel,Blinn(1. / rough)))
+			bsdf.push_back(Microfacet(ks, fresnel,Blinn(blinn_exponent(rough))))
 
 		kr = op * self.Kr(dgs).clip()
 		if not kr.is_black():
-- 
2.43.0


From ed276222ace894a00218b4bb0335ce53dcf6e780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:03 +0000
Subject: [PATCH 126/147] fix: opacity above one leaves no negative
 transmission

---
 pytracer/material/material.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 87110af..530ba33 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -347,8 +347,9 @@ class UberMaterial(Material):
 		bsdf = BSDF(dgs, dg_g.nn)
 		op = self.opacity(dgs).clip()   # op: Spectrum
 
-		if not op == [1., 1., 1.]:
-			bsdf.push_back(SpecularTransmission((1. - op), 1., 1.))
+		tr = (1. - op).clip()
+		if not tr.is_black():
+			bsdf.push_back(SpecularTransmission(tr, 1., 1.))
 
 		kd = op * self.Kd(dgs).clip()
 		if not kd.is_black():
-- 
2.43.0


From ea1a6cf4c595f9f9468fb91445020c4e163d484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:01 +0000
Subject: [PATCH 127/147] fix: bump mapping orients its normal by the geometric
 normal

---
 pytracer/material/material.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 530ba33..39dd5d8 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -98,7 +98,7 @@ class Material(object, metaclass=ABCMeta):
 			dg.nn *= -1.
 
 		# orient shding normal to match goemtric normal
-		dg.nn = geo.face_forward(dg.nn, dgg.nn)
+		dg.nn = geo.face_forward(dg.nn, geo.Vector.from_arr(dgg.nn))
 
 		return dg
 
-- 
2.43.0


From 5ff8308d81cbbb3c81d8218a4fff0d441da2e6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:25 +0000
Subject: [PATCH 128/147] fix: the scene interface can be imported

---
 pytracer/interface/api.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index 4cc8d74..1d4fa05 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -17,7 +17,7 @@ if TYPE_CHECKING:
 	from pytracer.transform import Transform
 
 
-def system_init(option: Option):
+def system_init(option: 'Option'):
 	from pytracer.spectral import Spectrum
 	import pytracer.interface as inter
 
@@ -100,14 +100,14 @@ def trans_look_at(eye: list, at: list, up: list):
 
 
 @check_system_inited
-def trans_concat(trans: Transform):
+def trans_concat(trans: 'Transform'):
 	import pytracer.interface as inter
 	for i, _ in enumerate(inter.TRANSFORM_SET):
 		inter.TRANSFORM_SET[i] *= trans
 
 
 @check_system_inited
-def trans_set(trans: Transform):
+def trans_set(trans: 'Transform'):
 	import pytracer.interface as inter
 	for i, _ in enumerate(inter.TRANSFORM_SET):
 		inter.TRANSFORM_SET[i] = trans
@@ -141,21 +141,21 @@ def set_transformation_time(start=0., end=1.):
 
 # Filters
 @check_system_inited
-def set_pixel_filter(name: str, param: Param):
+def set_pixel_filter(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.filter_name = name.lower()
 	inter.RENDER_OPTION.filter_param = param
 
 
 @check_system_inited
-def set_film(name: str, param: Param):
+def set_film(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.film_name = name.lower()
 	inter.RENDER_OPTION.film_param = param
 	
 	
 @check_system_inited
-def set_camera(name: str, param: Param):
+def set_camera(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.camera_name = name.lower()
 	inter.RENDER_OPTION.camera_param = param
@@ -164,35 +164,35 @@ def set_camera(name: str, param: Param):
 
 
 @check_system_inited
-def set_sampler(name: str, param: Param):
+def set_sampler(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.sampler_name = name.lower()
 	inter.RENDER_OPTION.sampler_param = param
 
 
 @check_system_inited
-def set_aggregator(name: str, param: Param):
+def set_aggregator(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.aggregator_name = name.lower()
 	inter.RENDER_OPTION.aggregator_param = param
 
 
 @check_system_inited
-def set_renderer(name: str, param: Param):
+def set_renderer(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.renderer_name = name.lower()
 	inter.RENDER_OPTION.renderer_param = param
 
 
 @check_system_inited
-def set_surface(name: str, param: Param):
+def set_surface(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.surface_name = name.lower()
 	inter.RENDER_OPTION.surface_param = param
 
 
 @check_system_inited
-def set_volume(name: str, param: Param):
+def set_volume(name: str, param: 'Param'):
 	import pytracer.interface as inter
 	inter.RENDER_OPTION.volume_name = name.lower()
 	inter.RENDER_OPTION.volume_param = param
-- 
2.43.0


From 4df9c176dbe5d6f9c48ce12bec53944981ade216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:25 +0000
Subject: [PATCH 129/147] fix: scene interface calls check initialisation when
 called, not when defined

---
 pytracer/interface/api.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index 1d4fa05..4257ddd 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -9,6 +9,7 @@ Interfacing from the scene descriptions.
 Created by Jiayao on Aug 21, 2017
 """
 from __future__ import absolute_import
+import functools
 from typing import TYPE_CHECKING
 import pytracer.utility as util
 if TYPE_CHECKING:
@@ -48,10 +49,13 @@ def system_clean():
 
 
 def check_system_inited(api_func):
-	import pytracer.interface as inter
-	if inter.API_STATUS == inter.API_UNINIT:
-		raise RuntimeError("{}: system not inited.".format(api_func.__name__))
-	return api_func
+	@functools.wraps(api_func)
+	def checked(*args, **kwargs):
+		import pytracer.interface as inter
+		if inter.API_STATUS == inter.API_UNINIT:
+			raise RuntimeError("{}: system not inited.".format(api_func.__name__))
+		return api_func(*args, **kwargs)
+	return checked
 
 
 @check_system_inited
-- 
2.43.0


From 6be330b6f2de7ac020ee463c35236dd8983f1514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:25 +0000
Subject: [PATCH 130/147] fix: initialisation starts from identity transforms
 and empty stacks

---
 pytracer/interface/api.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index 4257ddd..36fd50b 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -32,6 +32,10 @@ def system_init(option: 'Option'):
 	inter.RENDER_OPTION = inter.RenderOption()
 
 	inter.GRAPHICS_STATE = GraphicsState()
+	inter.GRAPHICS_STATE_STACK = []
+	inter.TRANSFORM_STACK = []
+	inter.COORDINATE_SYSTEM = {}
+	trans_identity()
 
 	Spectrum.init()
 
-- 
2.43.0


From 6bbf20dde96f0dbf1233d70d84650add5347cb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:25 +0000
Subject: [PATCH 131/147] fix: saved states and coordinate systems are copies

---
 pytracer/interface/api.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index 36fd50b..e826099 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -9,6 +9,7 @@ Interfacing from the scene descriptions.
 Created by Jiayao on Aug 21, 2017
 """
 from __future__ import absolute_import
+import copy
 import functools
 from typing import TYPE_CHECKING
 import pytracer.utility as util
@@ -126,7 +127,7 @@ def trans_set(trans: 'Transform'):
 def add_coordinate_system(name: str):
 	"""Make a named copy of the current transformations."""
 	import pytracer.interface as inter
-	inter.COORDINATE_SYSTEM[name] = inter.TRANSFORM_SET
+	inter.COORDINATE_SYSTEM[name] = list(inter.TRANSFORM_SET)
 
 
 @check_system_inited
@@ -136,7 +137,7 @@ def set_coordinate_system(name: str):
 	if name not in inter.COORDINATE_SYSTEM:
 		raise RuntimeError
 
-	inter.TRANSFORM_SET = inter.COORDINATE_SYSTEM[name]
+	inter.TRANSFORM_SET = list(inter.COORDINATE_SYSTEM[name])
 
 
 # Render Options
@@ -218,8 +219,8 @@ def world_begin():
 @check_system_inited
 def attribute_begin():
 	import pytracer.interface as inter
-	inter.GRAPHICS_STATE_STACK.append(inter.GRAPHICS_STATE)
-	inter.TRANSFORM_STACK.append(inter.TRANSFORM_SET)
+	inter.GRAPHICS_STATE_STACK.append(copy.copy(inter.GRAPHICS_STATE))
+	inter.TRANSFORM_STACK.append(list(inter.TRANSFORM_SET))
 
 
 @check_system_inited
@@ -236,7 +237,7 @@ def attribute_end():
 @check_system_inited
 def transform_begin():
 	import pytracer.interface as inter
-	inter.TRANSFORM_STACK.append(inter.TRANSFORM_SET)
+	inter.TRANSFORM_STACK.append(list(inter.TRANSFORM_SET))
 
 
 @check_system_inited
-- 
2.43.0


From 7f9c701a22fa866009967985583f3b74f483be03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:25 +0000
Subject: [PATCH 132/147] fix: look at places the camera at the eye

---
 pytracer/interface/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pytracer/interface/api.py b/pytracer/interface/api.py
index e826099..e566d1a 100644
--- a/pytracer/interface/api.py
+++ b/pytracer/interface/api.py
@@ -103,9 +103,10 @@ def trans_look_at(eye: list, at: list, up: list):
 	import pytracer.geometry as geo
 	import pytracer.transform as trans
 	for i, _ in enumerate(inter.TRANSFORM_SET):
+		# world to camera
 		inter.TRANSFORM_SET[i] *= trans.Transform.look_at(geo.Point.from_arr(eye),
 		                                                  geo.Point.from_arr(at),
-		                                                  geo.Vector.from_arr(up))
+		                                                  geo.Vector.from_arr(up)).inverse()
 
 
 @check_system_inited
-- 
2.43.0


From dc940a510cb44099fd6a572c34d2528e273138fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:56 +0000
Subject: [PATCH 133/147] fix: refracted ray differentials follow the
 refraction

---
 pytracer/integrator/utility.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index d6bdd44..92220f2 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -173,7 +173,8 @@ def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersec
 			rd.rxOrigin = p + isect.dg.dpdx
 			rd.ryOrigin = p + isect.dg.dpdy
 
-			eta = bsdf.eta
+			# relative index of the incident side
+			eta = 1. / bsdf.eta
 			w = -wo
 			if wo.dot(n) < 0.:
 				eta = 1. / eta
@@ -193,8 +194,8 @@ def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersec
 			dmudx = (eta - (eta * eta * w.dot(n) / wi.dot(n))) * dDNdx
 			dmudy = (eta - (eta * eta * w.dot(n) / wi.dot(n))) * dDNdy
 
-			rd.rxDirection = wi + eta * dwodx - geo.Vector.from_arr(mu * dndx + dmudx * n)
-			rd.ryDirection = wi + eta * dwody - geo.Vector.from_arr(mu * dndy + dmudy * n)
+			rd.rxDirection = wi - eta * dwodx - geo.Vector.from_arr(mu * dndx - dmudx * n)
+			rd.ryDirection = wi - eta * dwody - geo.Vector.from_arr(mu * dndy - dmudy * n)
 
 		Li, _ = renderer.li(scene, rd, sample, Intersection(), rng)
 		L = f * Li * wi.abs_dot(n) / pdf
-- 
2.43.0


From 62535049ccfe54d1f8930b1123f6333b6f9825f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:52 +0000
Subject: [PATCH 134/147] fix: bump mapping on mirrored and on reversed
 surfaces

---
 pytracer/material/material.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytracer/material/material.py b/pytracer/material/material.py
index 39dd5d8..2a5b277 100644
--- a/pytracer/material/material.py
+++ b/pytracer/material/material.py
@@ -88,8 +88,8 @@ class Material(object, metaclass=ABCMeta):
 
 		nn = geo.Vector.from_arr(dgs.nn)
 		dndu, dndv = geo.Vector.from_arr(dgs.dndu), geo.Vector.from_arr(dgs.dndv)
-		if dgs.nn.dot(dgs.dpdu.cross(dgs.dpdv)) < 0.:
-			# the normal is flipped, so are its derivatives
+		if dgs.shape.ro:
+			# the normal is reversed, so are its derivatives
 			dndu, dndv = -dndu, -dndv
 		dg.dpdu = dgs.dpdu + (u_disp - disp) / du * nn + disp * dndu
 		dg.dpdv = dgs.dpdv + (v_disp - disp) / dv * nn + disp * dndv
-- 
2.43.0


From 24346ed77cef3210aba88ce4d2bf8a174c21ed78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:52 +0000
Subject: [PATCH 135/147] fix: ray differentials of specular bounces off
 reversed surfaces

---
 pytracer/integrator/utility.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pytracer/integrator/utility.py b/pytracer/integrator/utility.py
index 92220f2..2c9c01b 100644
--- a/pytracer/integrator/utility.py
+++ b/pytracer/integrator/utility.py
@@ -141,6 +141,10 @@ def specular_reflect(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersect
 				   bsdf.dgs.dndv * bsdf.dgs.dvdx
 			dndy = bsdf.dgs.dndu * bsdf.dgs.dudy + \
 				   bsdf.dgs.dndv * bsdf.dgs.dvdy
+			if bsdf.dgs.shape is not None and bsdf.dgs.shape.ro:
+				# the normal is reversed, so are its derivatives
+				dndx = -dndx
+				dndy = -dndy
 
 			dwodx = -ray.rxDirection - wo
 			dwody = -ray.ryDirection - wo
@@ -184,6 +188,10 @@ def specular_transmit(ray: 'geo.RayDifferential', bsdf: 'BSDF', isect: 'Intersec
 				   bsdf.dgs.dndv * bsdf.dgs.dvdx
 			dndy = bsdf.dgs.dndu * bsdf.dgs.dudy + \
 				   bsdf.dgs.dndv * bsdf.dgs.dvdy
+			if bsdf.dgs.shape is not None and bsdf.dgs.shape.ro:
+				# the normal is reversed, so are its derivatives
+				dndx = -dndx
+				dndy = -dndy
 
 			dwodx = -ray.rxDirection - wo
 			dwody = -ray.ryDirection - wo
-- 
2.43.0


From 0bf6fc0088fe0cf76c96395d90f5da8940675488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:39 +0000
Subject: [PATCH 136/147] fix: path tracing attenuates background light seen
 through specular bounces

---
 pytracer/integrator/surface/path.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pytracer/integrator/surface/path.py b/pytracer/integrator/surface/path.py
index b5c22be..755f701 100644
--- a/pytracer/integrator/surface/path.py
+++ b/pytracer/integrator/surface/path.py
@@ -130,6 +130,7 @@ class PathIntegrator(SurfaceIntegrator):
 			if not hit:
 				# ambient light
 				if specular_bounce:
+					path_throughput *= renderer.transmittance(scene, ray, None, rng)
 					for light in scene.lights:
 						L += path_throughput * light.le(ray)
 				break
-- 
2.43.0


From 256c91b00ece225a359e4c70dd6e5ed4a8c168ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:22 +0000
Subject: [PATCH 137/147] fix: world bounds handed out belong to the caller

---
 pytracer/aggregate/accelerator/bvh.py | 2 +-
 pytracer/aggregate/aggregate.py       | 4 ++--
 pytracer/scene/scene.py               | 2 +-
 pytracer/volume/volume.py             | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pytracer/aggregate/accelerator/bvh.py b/pytracer/aggregate/accelerator/bvh.py
index 1fca4c0..759e482 100644
--- a/pytracer/aggregate/accelerator/bvh.py
+++ b/pytracer/aggregate/accelerator/bvh.py
@@ -426,7 +426,7 @@ class BVH(Aggregate):
 
 	def world_bound(self):
 		if self.nodes is not None:
-			return self.nodes[0].bounds
+			return geo.BBox.from_bbox(self.nodes[0].bounds)
 		return geo.BBox()
 
 	def can_intersect(self) -> bool:
diff --git a/pytracer/aggregate/aggregate.py b/pytracer/aggregate/aggregate.py
index 8d7b45b..54d1a1f 100644
--- a/pytracer/aggregate/aggregate.py
+++ b/pytracer/aggregate/aggregate.py
@@ -54,7 +54,7 @@ class SimpleAggregate(Aggregate):
 		raise NotImplementedError('{}.refine(): Not implemented'.format(self.__class__))
 
 	def world_bound(self) -> 'geo.BBox':
-		return self.bounds
+		return geo.BBox.from_bbox(self.bounds)
 
 	def can_intersect(self) -> bool:
 		return True
@@ -241,7 +241,7 @@ class GridAccel(Aggregate):
 		return INT(z * self.n_voxels[0] * self.n_voxels[1] + y * self.n_voxels[0] + x)
 
 	def world_bound(self) -> 'geo.BBox':
-		return self.bounds
+		return geo.BBox.from_bbox(self.bounds)
 
 	def can_intersect(self) -> bool:
 		return True
diff --git a/pytracer/scene/scene.py b/pytracer/scene/scene.py
index fbf2a06..933da4d 100644
--- a/pytracer/scene/scene.py
+++ b/pytracer/scene/scene.py
@@ -39,4 +39,4 @@ class Scene(object):
 		return self.aggregate.intersect_p(ray)
 
 	def world_bound(self) -> 'geo.BBox':
-		return self.bound
\ No newline at end of file
+		return geo.BBox.from_bbox(self.bound)
\ No newline at end of file
diff --git a/pytracer/volume/volume.py b/pytracer/volume/volume.py
index 61adbf0..1f3fa40 100644
--- a/pytracer/volume/volume.py
+++ b/pytracer/volume/volume.py
@@ -383,7 +383,7 @@ class AggregateVolume(VolumeRegion):
 		return s	
 
 	def world_bound(self) ->  'geo.BBox':
-		return self.bound
+		return geo.BBox.from_bbox(self.bound)
 		#return self.w2v.inverse()(self.bound)
 
 	def intersect_p(self, ray: 'geo.Ray') ->  [bool, FLOAT, FLOAT]:
-- 
2.43.0


From 2ee6f98686540f0025ce97f06e3453b16b58fc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:06 +0000
Subject: [PATCH 138/147] fix: an environment map is scaled by the light's
 radiance

---
 pytracer/light/light.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/light/light.py b/pytracer/light/light.py
index 809e246..96b6a54 100644
--- a/pytracer/light/light.py
+++ b/pytracer/light/light.py
@@ -558,7 +558,7 @@ class InfiniteAreaLight(Light):
 		if texmap is not None:
 			try:
 				import pytracer.utility.imageio as iio
-				texels = iio.read_image(texmap)
+				texels = iio.read_image(texmap) * l.to_rgb()
 				height, width = np.shape(texels)[:2]
 			except:
 				print('src.core.texture.{}.get_texture(): cannot process file {}, '
-- 
2.43.0


From d532ead6945a76ec7398deb9cc89d7b5f2412577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:47 +0000
Subject: [PATCH 139/147] fix: refining a subdivision surface leaves its
 control mesh alone

---
 pytracer/shape/loopsubdiv.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pytracer/shape/loopsubdiv.py b/pytracer/shape/loopsubdiv.py
index c0a0208..e109853 100644
--- a/pytracer/shape/loopsubdiv.py
+++ b/pytracer/shape/loopsubdiv.py
@@ -291,8 +291,12 @@ class LoopSubdiv(Shape):
 		return False
 
 	def refine(self) -> ['Shape']:
-		f = self.faces
-		v = self.vertices
+		# work on a copy, the control mesh is kept as it is
+		idx = {vv: i for i, vv in enumerate(self.vertices)}
+		mesh = LoopSubdiv(self.o2w, self.w2o, self.ro, len(self.faces), len(self.vertices),
+		                  [idx[vv] for ff in self.faces for vv in ff.v], [vv.P for vv in self.vertices], self.nLevels)
+		f = mesh.faces
+		v = mesh.vertices
 		for i in range(self.nLevels):
 			new_faces = []
 			new_vertices = []
-- 
2.43.0


From 4de8f3051a8cf4d36cc1053cb2aedd43efa9f689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:24 +0000
Subject: [PATCH 140/147] fix: a triangle's sampled normal lies on the side its
 intersections report when texture coordinates are mirrored or degenerate

---
 pytracer/shape/triangle.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index bb42bca..5c9bbf2 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -160,6 +160,11 @@ class Triangle(Shape):
 		if self.ro ^ self.transform_swaps_handedness:
 			Ns *= -1.
 
+		# mirrored texture coordinates turn the surface round
+		uvs = self.get_uvs()
+		if (uvs[0][0] - uvs[2][0]) * (uvs[1][1] - uvs[2][1]) - (uvs[1][0] - uvs[2][0]) * (uvs[0][1] - uvs[2][1]) < 0.:
+			Ns *= -1.
+
 		return [p, Ns]
 
 	def __getitem__(self, item):
@@ -220,7 +225,7 @@ class Triangle(Shape):
 		det = du1 * dv2 - du2 * dv1
 		if det == 0.:
 			# choose an arbitrary system
-			_, dpdu, dpdv = geo.coordinate_system(geo.normalize(e2.cross(e1)))
+			_, dpdu, dpdv = geo.coordinate_system(geo.normalize(e1.cross(e2)))
 		else:
 			detInv = 1. / det
 			dpdu = (dv2 * dp1 - dv1 * dp2) * detInv
@@ -292,7 +297,7 @@ class Triangle(Shape):
 		det = du1 * dv2 - du2 * dv1
 		if det == 0.:
 			# choose an arbitrary system
-			_, dpdu, dpdv = geo.coordinate_system(geo.normalize(e2.cross(e1)))
+			_, dpdu, dpdv = geo.coordinate_system(geo.normalize(e1.cross(e2)))
 		else:
 			detInv = 1. / det
 			dpdu = (dv2 * dp1 - dv1 * dp2) * detInv
-- 
2.43.0


From 38b9a95fc961b7f002d8dde40ad66634fe6a8586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:51 +0000
Subject: [PATCH 141/147] fix: measured media return absorption and reduced
 scattering in the documented order

---
 pytracer/volume/utility.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytracer/volume/utility.py b/pytracer/volume/utility.py
index 712bcdd..185037a 100644
--- a/pytracer/volume/utility.py
+++ b/pytracer/volume/utility.py
@@ -72,8 +72,9 @@ def get_volume_scattering(name: str) -> ['Spectrum', 'Spectrum']:
 	"""
 	from pytracer.data.volume import MEASURED_SUF_SC
 	if name in MEASURED_SUF_SC:
-		return [Spectrum.from_rgb(MEASURED_SUF_SC[name][0]),
-		        Spectrum.from_rgb(MEASURED_SUF_SC[name][1])]
+		# tabulated as (sigma'_s, sigma_a)
+		return [Spectrum.from_rgb(MEASURED_SUF_SC[name][1]),
+		        Spectrum.from_rgb(MEASURED_SUF_SC[name][0])]
 	return [None, None]
 
 
-- 
2.43.0


From 066b1a6bf0f1fa467b85986013cd66d825b1aa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:18 +0000
Subject: [PATCH 142/147] fix: pair the samples of a BSDF's hemispherical
 reflectance at random

---
 pytracer/reflection/bsdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytracer/reflection/bsdf.py b/pytracer/reflection/bsdf.py
index 8ee6a49..7fa0482 100644
--- a/pytracer/reflection/bsdf.py
+++ b/pytracer/reflection/bsdf.py
@@ -250,6 +250,8 @@ class BSDF(object):
 		nSamples = sqrt_samples * sqrt_samples
 		smp_1 = stratified_sample_2d(sqrt_samples, sqrt_samples, rng=rng)
 		smp_2 = stratified_sample_2d(sqrt_samples, sqrt_samples, rng=rng)
+		# both patterns list their strata in the same order
+		smp_2 = smp_2[np.argsort(rng(nSamples))]
 
 		sp = Spectrum(0.)
 		for bdf in self.bdfs:
-- 
2.43.0


From 9f2789663a79d88354f73a890291c0b3690085aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:09 +0000
Subject: [PATCH 143/147] fix: degenerate texture coordinates are told from
 their determinant

---
 pytracer/shape/triangle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/shape/triangle.py b/pytracer/shape/triangle.py
index 5c9bbf2..bdfd3fb 100644
--- a/pytracer/shape/triangle.py
+++ b/pytracer/shape/triangle.py
@@ -337,12 +337,12 @@ class Triangle(Shape):
 		              [uvs[1][1] - uvs[0][1], uvs[2][1] - uvs[0][1]]],
 		             dtype=FLOAT)
 		C = np.array([dg.u - uvs[0][0], dg.v - uvs[0][1]])
-		try:
-			b = np.linalg.solve(A, C)
-		except:
+		det = A[0][0] * A[1][1] - A[0][1] * A[1][0]
+		if det == 0.:
 			b = [1. / 3, 1. / 3, 1. / 3]
 
 		else:
+			b = [(A[1][1] * C[0] - A[0][1] * C[1]) / det, (A[0][0] * C[1] - A[1][0] * C[0]) / det]
 			b = [1. - b[0] - b[1], b[0], b[1]]
 
 		# compute shading tangents
-- 
2.43.0


From a15516bbcb1bcd4f97a3afed0bcfa213729341ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:26 +0000
Subject: [PATCH 144/147] fix: a filtered look-up never hands out the pyramid's
 own texel

---
 pytracer/texture/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytracer/texture/utility.py b/pytracer/texture/utility.py
index 72848e5..03afbe1 100644
--- a/pytracer/texture/utility.py
+++ b/pytracer/texture/utility.py
@@ -433,7 +433,7 @@ class MIPMap(object):
 			if level < 0:
 				return self.__triangle(0, s, t)
 			elif level >= self.__n_levels - 1:
-				return self.texel(self.__n_levels - 1, 0, 0)
+				return self.texel(self.__n_levels - 1, 0, 0).copy()
 			else:
 				i_level = util.ftoi(level)
 				delta = level - i_level
-- 
2.43.0


From e4b74da3ae075c93573484fc8de64e41ecd50197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:44 +0000
Subject: [PATCH 145/147] fix: spectra built from integers compute like any
 other

---
 pytracer/spectral/spectrum.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index ea47d5c..e96dc49 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -73,11 +73,11 @@ class CoefficientSpectrum(np.ndarray, metaclass=ABCMeta):
 
 	@classmethod
 	def create_from_array(cls, arr: 'np.ndarray'):
-		return arr.copy().view(cls)
+		return np.array(arr, dtype=FLOAT).view(cls)
 
 	@classmethod
 	def create_from_list(cls, lst: list):
-		return np.array(lst).view(cls)
+		return np.array(lst, dtype=FLOAT).view(cls)
 
 	@classmethod
 	def create(cls, arg):
@@ -89,10 +89,7 @@ class CoefficientSpectrum(np.ndarray, metaclass=ABCMeta):
 			if not np.ndim(arg) == 1:
 				raise TypeError('{}-d np array cannot init {}'.format(np.ndim(arg), cls))
 
-			if isinstance(arg, np.ndarray):
-				return arg.copy().view(cls)
-
-			return np.array(arg).view(cls)
+			return np.array(arg, dtype=FLOAT).view(cls)
 
 		else:
 			raise TypeError('Unsupported type {} for init {}'.format(type(arg), cls))
@@ -286,7 +283,7 @@ class SampledSpectrum(CoefficientSpectrum):
 		if v is None:
 			return np.full(N_SPECTRAL_SAMPLES, 0.).view(cls)
 		elif isinstance(v, Iterable):
-			return np.array(v).view(cls)
+			return np.array(v, dtype=FLOAT).view(cls)
 		raise TypeError('Unsupported type {} while initializing {}'.format(type(v), __class__))
 
 	def __init__(self, v: Iterable=None):
@@ -570,11 +567,11 @@ class RGBSpectrum(CoefficientSpectrum):
 
 	@classmethod
 	def create_from_array(cls, arr: 'np.ndarray'):
-		return arr.copy().view(cls)
+		return np.array(arr, dtype=FLOAT).view(cls)
 
 	@classmethod
 	def create_from_list(cls, lst: list):
-		return np.array(lst).view(cls)
+		return np.array(lst, dtype=FLOAT).view(cls)
 
 	@classmethod
 	def create(cls, arg):
-- 
2.43.0


From 1bec6cb78e1039382b9d94b36407012109e20a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:30 +0000
Subject: [PATCH 146/147] fix: only what is exactly zero is black: far and dim
 lights kept vanishing below 1e-5

---
 pytracer/spectral/spectrum.py | 2 +-
 pytracer/utility/utility.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/spectral/spectrum.py b/pytracer/spectral/spectrum.py
index e96dc49..d0efc4e 100644
--- a/pytracer/spectral/spectrum.py
+++ b/pytracer/spectral/spectrum.py
@@ -181,7 +181,7 @@ class CoefficientSpectrum(np.ndarray, metaclass=ABCMeta):
 		Test whether the spectrum has
 		zeros of SPD everywhere
 		"""
-		return (self < EPS).all()
+		return not (np.asarray(self) != 0.).any()
 
 	def sqrt(self) -> 'CoefficientSpectrum':
 		"""
diff --git a/pytracer/utility/utility.py b/pytracer/utility/utility.py
index c757a59..370d69e 100644
--- a/pytracer/utility/utility.py
+++ b/pytracer/utility/utility.py
@@ -120,8 +120,8 @@ def is_black(s):
 	from pytracer import Spectrum
 
 	if isinstance(s, np.ndarray):
-		return (np.abs((s - 0.)) < EPS).all()
-	return np.abs(s - 0.) < EPS
+		return not (np.asarray(s) != 0.).any()
+	return s == 0.
 
 
 #) Numpy universal function for linear interpolation
-- 
2.43.0


From e77833dc1b39c7f0f8395d45f115f95667ab2f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:40 +0000
Subject: [PATCH 147/147] fix: a transform that stretches along a diagonal
 reports that it scales

---
 pytracer/transform/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pytracer/transform/__init__.py b/pytracer/transform/__init__.py
index e42e269..b9c93d3 100644
--- a/pytracer/transform/__init__.py
+++ b/pytracer/transform/__init__.py
@@ -277,9 +277,9 @@ class Transform(object):
 		return np.array_equal(self.m, np.eye(4, 4))
 
 	def has_scale(self) -> bool:
-		return util.ne_unity(self.m[0][0:3].dot(self.m[0][0:3])) or \
-		       util.ne_unity(self.m[1][0:3].dot(self.m[1][0:3])) or \
-		       util.ne_unity(self.m[2][0:3].dot(self.m[2][0:3]))
+		# lengths are kept by all vectors only if the rows are orthonormal
+		m = self.m[0:3, 0:3]
+		return bool(np.any(np.fabs(m.dot(m.T) - np.eye(3)) > EPS))
 
 	def swaps_handedness(self) -> bool:
 		return (np.linalg.det(self.m[0:3, 0:3]) < 0.)
-- 
2.43.0

