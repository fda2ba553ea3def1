From c5e7fe6f0ab2c4f8f92ddd3190f9c986404f17ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:57 +0000
Subject: [PATCH 01/93] fix: round hazard domain limits when selecting wind
 field cells

Truncating limits such as 128.2 (held as 128.19999) dropped the last
row or column of the domain, or failed for a domain one cell wide.
---
 hazard/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index bb9670f..bf162e4 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -105,15 +105,15 @@ class TileGrid(object):
 
 
         ii, = ((np.round(wf_lon*1000).astype(int) >=
-                int(gridLimit['xMin']*1000)) &
+                int(np.round(gridLimit['xMin']*1000))) &
                (np.round(wf_lon*1000).astype(int) <=
-                int(gridLimit['xMax']*1000))).nonzero()
+                int(np.round(gridLimit['xMax']*1000)))).nonzero()
 
 
         jj, = ((np.round(wf_lat*1000).astype(int) >=
-                int(gridLimit['yMin']*1000)) &
+                int(np.round(gridLimit['yMin']*1000))) &
                (np.round(wf_lat*1000).astype(int) <=
-                int(gridLimit['yMax']*1000))).nonzero()
+                int(np.round(gridLimit['yMax']*1000)))).nonzero()
 
         self.imin = ii[0]
         self.imax = ii[-1]
-- 
2.43.0


From 6f2774bed65795261956d00b88a3e1e7c70b6157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:02 +0000
Subject: [PATCH 02/93] fix: apply the minimum number of records to valid wind
 speeds only

The Pareto fit counted zero wind speeds as records, and the power law
fit ignored the configured minimum.
---
 hazard/GPD.py | 2 +-
 hazard/evd.py | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/hazard/GPD.py b/hazard/GPD.py
index f53976d..c71712c 100644
--- a/hazard/GPD.py
+++ b/hazard/GPD.py
@@ -98,7 +98,7 @@ def gpdfit(data, years, numsim, missingValue=-9999,
 
     log.debug("The length of the data currently is {0}".format(len(data)))
 
-    if len(data) < minrecords:
+    if len(recs) < minrecords:
         return Rp, loc, scl, shp
 
     # Fill each day that a cyclone isn't recorded with zero so we get 
diff --git a/hazard/evd.py b/hazard/evd.py
index a9fefaa..ce3e586 100644
--- a/hazard/evd.py
+++ b/hazard/evd.py
@@ -367,7 +367,10 @@ def powerfit(data, intervals, numsim, nodata=-9999., minrecords=50):
 
     loc, scale, shp = [nodata, nodata, nodata]
     w = nodata * np.ones(len(intervals)) # Create empty return period array
-    
+
+    if np.count_nonzero(data > 0) < minrecords:
+        return w, loc, scale, shp
+
     npyr = 365.25
     nobs = npyr * numsim
     
@@ -494,7 +497,7 @@ def gpdfit(data, intervals, numsim, nodata=-9999, minrecords=50, threshold=99.5)
 
     log.debug("The length of the data currently is {0}".format(len(data)))
 
-    if len(data) < minrecords:
+    if len(recs) < minrecords:
         return Rp, loc, scl, shp
 
     # Fill each day that a cyclone isn't recorded with zero so we get 
-- 
2.43.0


From 98a4bf22aa50b9ed4d6bbbd4300a9ac290e8cb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:41 +0000
Subject: [PATCH 03/93] fix: make the hazard confidence range usable

The number of samples was a float, which numpy rejects as an array
dimension. Each sample was one record short, and samples without a
valid fit kept the values of the previously processed grid cell or
entered the percentiles as missing values.
---
 hazard/__init__.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index bf162e4..efe209d 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -825,7 +825,7 @@ def calculateCI(Vr, years, nodata, minRecords, yrsPerSim=1,
     upper = 100. - lower # 95th percentile default
 
     nrecords = Vr.shape[0] # number of years (since we have aggregated into 1/yr)
-    nsamples = nrecords / sample_size # number of iterations to perform
+    nsamples = nrecords // sample_size # number of iterations to perform
     
     # RpUpper/RpLower = years x lat x lon
     RpUpper = nodata*np.ones((len(years), Vr.shape[1], Vr.shape[2]), dtype='f')
@@ -840,9 +840,10 @@ def calculateCI(Vr, years, nodata, minRecords, yrsPerSim=1,
         for j in range(Vr.shape[2]): # lon
             if Vr[:, i, j].max() > 0.0: # check for valid data
                 random.shuffle(Vr[:, i, j]) # shuffle the years
+                w[:, :] = nodata
                 for n in range(nsamples): # iterate through fitting of random samples
                     nstart = n*sample_size
-                    nend  = (n + 1)*sample_size - 1
+                    nend = (n + 1)*sample_size
                     vsub = Vr[nstart:nend, i, j] # select random 50(default) events
 
                     vsub.sort()
@@ -853,8 +854,13 @@ def calculateCI(Vr, years, nodata, minRecords, yrsPerSim=1,
 
                 # Pull out the upper and lower percentiles from the random sample fits
                 for n in range(len(years)):
-                    wUpper[n] = percentile(w[n,:], upper)
-                    wLower[n] = percentile(w[n,:], lower)
+                    valid = w[n, w[n, :] != nodata]
+                    if len(valid) > 0:
+                        wUpper[n] = percentile(valid, upper)
+                        wLower[n] = percentile(valid, lower)
+                    else:
+                        wUpper[n] = nodata
+                        wLower[n] = nodata
 
                 # Store upper and lower percentiles for each return period, for each grid cell
                 RpUpper[:, i, j] = wUpper
-- 
2.43.0


From c58ec925ab8d2ddbdb86c59dee0639c1bababc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:01 +0000
Subject: [PATCH 04/93] fix: do not duplicate records when the hazard database
 is built again

Running the database step a second time appended all wind speed, hazard
and track records to those of the first run, and kept its event records.
---
 database/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/database/__init__.py b/database/__init__.py
index c4eb941..b972503 100644
--- a/database/__init__.py
+++ b/database/__init__.py
@@ -187,6 +187,9 @@ class _HazardDatabase(sqlite3.Connection):
         self.createTable('tblWindSpeed', TBLWINDSPEEDDEF)
         self.createTable('tblHazard', TBLHAZARDDEF)
         self.createTable('tblTracks', TBLTRACKSDEF)
+        # Replace the records of any earlier run, rather than adding to them:
+        for tblName in ('tblEvents', 'tblWindSpeed', 'tblHazard', 'tblTracks'):
+            self.execute("DELETE FROM {0}".format(tblName))
         self.exists = True
         self.commit()
 
-- 
2.43.0


From 982b55c3e665b0345ffdc9a3c342450568935752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:42 +0000
Subject: [PATCH 05/93] fix: report the location's own wind speed for passing
 events

locationPassage returned one row per location with a wind speed record
for the event, carrying the wind speed of those other locations.
---
 database/queries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/queries.py b/database/queries.py
index 6e93edb..f1d3b87 100644
--- a/database/queries.py
+++ b/database/queries.py
@@ -122,7 +122,7 @@ def locationPassage(hazard_db, locId, distance=50):
              "w.wspd, e.eventFile FROM tblLocations l "
              "INNER JOIN tblTracks t "
              "ON l.locId = t.locId "
-             "JOIN tblWindSpeed w on w.eventId = t.eventId "
+             "JOIN tblWindSpeed w on w.locId = t.locId AND w.eventId = t.eventId "
              "JOIN tblEvents e on e.eventId = t.eventId "
              "WHERE t.distClosest < ? and l.locId = ?")
     cur = hazard_db.execute(query, (distance, locId))
-- 
2.43.0


From 5979c4f5d373052231e01214466c665a38fde1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:21 +0000
Subject: [PATCH 06/93] fix: pass the configuration file to the evaluation step

The evaluation step was given the parsed configuration object where it
expects the name of the configuration file, so it ran on default settings.
---
 tcrm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcrm.py b/tcrm.py
index 4c53c41..a0b7386 100755
--- a/tcrm.py
+++ b/tcrm.py
@@ -559,7 +559,7 @@ def main(configFile='main.ini'):
 
     comm.barrier()
     if config.getboolean('Actions', 'ExecuteEvaluate'):
-        doEvaluation(config)
+        doEvaluation(configFile)
 
     comm.barrier()
 
-- 
2.43.0


From 27b2c47e5f6a5d0d6a64c59d946051416aeac652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:04 +0000
Subject: [PATCH 07/93] fix: draw storm size variates from the simulation's own
 random stream

The size variate came from the global numpy generator, which is not
reseeded for each simulation. The catalogue therefore depended on how
many processes shared the simulations.
---
 TrackGenerator/TrackGenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index 5819800..baa6525 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -646,13 +646,13 @@ class TrackGenerator(object):
                     cdfSize = self.allCDFInitSize[ind, 1:3]
 
                 dp = initEnvPressure - genesisPressure
-                self.rmwEps = np.random.normal(0, scale=0.335)
+                self.rmwEps = normal(0., 0.335)
                 genesisRmax = trackSize.rmax(dp, genesisLat, self.rmwEps)
 
                 # Censor the initial Rmax to be < 100 km.
                 if genesisRmax > 100.:
                     while genesisRmax > 100.:
-                        self.rmwEps = np.random.normal(0, scale=0.335)
+                        self.rmwEps = normal(0., 0.335)
                         genesisRmax = trackSize.rmax(dp,
                                                      genesisLat,
                                                      self.rmwEps)
-- 
2.43.0


From ff98a80fee14e0e8a72a237b453bb8a6fbe93d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:04 +0000
Subject: [PATCH 08/93] fix: allow a track generation run with a single
 simulation

The progress message divided by the index of the last simulation, which
is zero when there is only one.
---
 TrackGenerator/TrackGenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index baa6525..9909789 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -1869,7 +1869,7 @@ def run(configFile, callback=None):
 
     comm.barrier()
 
-    N = sims[-1].index
+    N = len(sims)
 
     # Balance the simulations over the number of processors and do it
 
-- 
2.43.0


From bf9ae98b0eeddac49bcddd275089cdecce2df6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:04 +0000
Subject: [PATCH 09/93] fix: honour a track or season seed of zero

A seed of zero was treated as no seed: serial runs were not
reproducible and parallel runs stopped.
---
 TrackGenerator/TrackGenerator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index 9909789..ef25ca9 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -1806,7 +1806,8 @@ def run(configFile, callback=None):
     MPI = attemptParallel()
     comm = MPI.COMM_WORLD
 
-    if comm.size > 1 and (not seasonSeed or not trackSeed):
+    if comm.size > 1 and (seasonSeed is None or
+                          trackSeed is None):
         log.critical('TrackSeed and GenesisSeed are needed' +
                      ' for parallel runs!')
         sys.exit(1)
@@ -1826,7 +1827,7 @@ def run(configFile, callback=None):
     # Python `random` library does not provide a function to sample
     # from the Poisson distribution.
 
-    if seasonSeed:
+    if seasonSeed is not None:
         np.random.seed(seasonSeed)
 
     # Do the first stage of the simulation (i.e., sample the number of
@@ -1880,7 +1881,7 @@ def run(configFile, callback=None):
         if callback is not None:
             callback(sim.index, N)
 
-        if sim.seed:
+        if sim.seed is not None:
             global PRNG #TODO: explicitly-pass rather than mutate global state
             PRNG = random.Random(seed=sim.seed, stream=sim.index)
             log.debug('seed %i stream %i', sim.seed, sim.index)
-- 
2.43.0


From e99551699d0a17a0fe258d5d7d184ff79fc39d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:48:39 +0000
Subject: [PATCH 10/93] fix: sample the environmental pressure for every storm
 of a simulation

The pressure found for the first genesis point was kept and used for all
later storms of the simulation, wherever and whenever they started.
---
 TrackGenerator/TrackGenerator.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index ef25ca9..08cb24e 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -617,19 +617,21 @@ class TrackGenerator(object):
             # provided - dependent on initial day of year:
 
             if not initEnvPressure:
-                initEnvPressure = \
+                genesisEnvPressure = \
                     self.mslp.get_pressure(np.array([[genesisDay],
                                                      [genesisLat],
                                                      [genesisLon]]))
+            else:
+                genesisEnvPressure = initEnvPressure
 
             # Sample an initial pressure if none is provided
 
             if not initPressure:
                 # Sample subject to the constraint initPressure <
-                # initEnvPressure
+                # genesisEnvPressure
                 ind = self.allCDFInitPressure[:, 0] == initCellNum
                 cdfInitPressure = self.allCDFInitPressure[ind, 1:3]
-                ix = cdfInitPressure[:, 0].searchsorted(initEnvPressure)
+                ix = cdfInitPressure[:, 0].searchsorted(genesisEnvPressure)
                 upperProb = cdfInitPressure[ix - 1, 1]
                 genesisPressure = ppf(uniform(0.0, upperProb),
                                       cdfInitPressure)
@@ -645,7 +647,7 @@ class TrackGenerator(object):
                     ind = self.allCDFInitSize[:, 0] == initCellNum
                     cdfSize = self.allCDFInitSize[ind, 1:3]
 
-                dp = initEnvPressure - genesisPressure
+                dp = genesisEnvPressure - genesisPressure
                 self.rmwEps = normal(0., 0.335)
                 genesisRmax = trackSize.rmax(dp, genesisLat, self.rmwEps)
 
@@ -670,7 +672,7 @@ class TrackGenerator(object):
             log.debug('initBearing: %.2f initSpeed: %.2f' +
                       ' initEnvPressure: %.2f initPressure: %.2f' +
                       ' initRmax: %.2f',
-                      genesisBearing, genesisSpeed, initEnvPressure,
+                      genesisBearing, genesisSpeed, genesisEnvPressure,
                       genesisPressure, genesisRmax)
 
             xMin = self.gridLimit['xMin']
@@ -684,7 +686,7 @@ class TrackGenerator(object):
                           ' for this genesis point.')
                 continue
 
-            if (initEnvPressure - genesisPressure) < 2:
+            if (genesisEnvPressure - genesisPressure) < 2:
                 log.debug(("Track does not start with sufficient "
                            "pressure deficit"))
                 continue
@@ -694,7 +696,7 @@ class TrackGenerator(object):
 
             data = self._singleTrack(j, genesisLon, genesisLat,
                                      genesisSpeed, genesisBearing,
-                                     genesisPressure, initEnvPressure,
+                                     genesisPressure, genesisEnvPressure,
                                      genesisRmax, genesisTime)
 
             track_dtype = np.dtype({'names':TCRM_COLS, 'formats':TCRM_FMTS})
-- 
2.43.0


From c824728803d8abb5ff26d995d4d294bbfc924287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:49:03 +0000
Subject: [PATCH 11/93] fix: use a prescribed genesis longitude, latitude,
 bearing or speed of zero

A value of zero was taken as not given and replaced by a random one.
---
 TrackGenerator/TrackGenerator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index 08cb24e..f9c2514 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -557,7 +557,7 @@ class TrackGenerator(object):
         j = 0
         while j < nTracks:
 
-            if not (initLon and initLat):
+            if initLon is None or initLat is None:
                 log.debug('Cyclone origin not given, sampling a' +
                           ' random one instead.')
                 genesisLon, genesisLat = \
@@ -580,7 +580,7 @@ class TrackGenerator(object):
 
             # Sample an initial bearing if none is provided
 
-            if not initBearing:
+            if initBearing is None:
                 ind = self.allCDFInitBearing[:, 0] == initCellNum
                 cdfInitBearing = self.allCDFInitBearing[ind, 1:3]
                 genesisBearing = ppf(uniform(), cdfInitBearing)
@@ -589,7 +589,7 @@ class TrackGenerator(object):
 
             # Sample an initial speed if none is provided
 
-            if not initSpeed:
+            if initSpeed is None:
                 ind = self.allCDFInitSpeed[:, 0] == initCellNum
                 cdfInitSpeed = self.allCDFInitSpeed[ind, 1:3]
                 genesisSpeed = ppf(uniform(), cdfInitSpeed)
-- 
2.43.0


From a71414f5a753517608270f03e4e84458143bced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:21 +0000
Subject: [PATCH 12/93] fix: round rather than truncate the limits and step of
 the wind field grid

---
 Utilities/maputils.py | 18 +++++++++---------
 wind/__init__.py      | 12 ++++++------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/Utilities/maputils.py b/Utilities/maputils.py
index 61a60e9..5eb9c7a 100644
--- a/Utilities/maputils.py
+++ b/Utilities/maputils.py
@@ -491,24 +491,24 @@ def makeGrid(cLon, cLat, margin=2, resolution=0.01, minLon=None, maxLon=None,
         type(cLon)==np.ndarray or type(cLat)==np.ndarray):
         raise TypeError("Input values must be scalar values")
 
-    gridSize = int(resolution * 1000)
+    gridSize = int(round(resolution * 1000))
 
     if minLon:
-        minLon_ = int(1000 * (minLon)) - int(1000 * margin)
+        minLon_ = int(round(1000 * minLon)) - int(round(1000 * margin))
     else:
-        minLon_ = int(1000 * (cLon)) - int(1000 * margin)
+        minLon_ = int(1000 * (cLon)) - int(round(1000 * margin))
     if maxLon:
-        maxLon_ = int(1000 * (maxLon)) + int(1000 * margin) + 1
+        maxLon_ = int(round(1000 * maxLon)) + int(round(1000 * margin)) + 1
     else:
-        maxLon_ = int(1000 * (cLon)) + int(1000 * margin) + 1
+        maxLon_ = int(1000 * (cLon)) + int(round(1000 * margin)) + 1
     if minLat:
-        minLat_ = int(1000 * (minLat)) - int(1000 * margin)
+        minLat_ = int(round(1000 * minLat)) - int(round(1000 * margin))
     else:
-        minLat_ = int(1000 * (cLat)) - int(1000 * margin)
+        minLat_ = int(1000 * (cLat)) - int(round(1000 * margin))
     if maxLat:
-        maxLat_ = int(1000 * (maxLat)) + int(1000 * margin) + 1
+        maxLat_ = int(round(1000 * maxLat)) + int(round(1000 * margin)) + 1
     else:
-        maxLat_ = int(1000 * (cLat)) + int(1000 * margin) + 1
+        maxLat_ = int(1000 * (cLat)) + int(round(1000 * margin)) + 1
 
     xGrid = np.array(np.arange(minLon_, maxLon_, gridSize), dtype=int)
     yGrid = np.array(np.arange(minLat_, maxLat_, gridSize), dtype=int)
diff --git a/wind/__init__.py b/wind/__init__.py
index d909e64..2423be5 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -238,13 +238,13 @@ class WindfieldAroundTrack(object):
         yMax = gridLimit['yMax']
 
         # Setup a 'millidegree' integer grid for the region
-        gridMargin = int(100. * self.margin)
-        gridStep = int(100. * self.resolution)
+        gridMargin = int(round(100. * self.margin))
+        gridStep = int(round(100. * self.resolution))
 
-        minLat = int(100. * yMin) - gridMargin
-        maxLat = int(100. * yMax) + gridMargin
-        minLon = int(100. * xMin) - gridMargin
-        maxLon = int(100. * xMax) + gridMargin
+        minLat = int(round(100. * yMin)) - gridMargin
+        maxLat = int(round(100. * yMax)) + gridMargin
+        minLon = int(round(100. * xMin)) - gridMargin
+        maxLon = int(round(100. * xMax)) + gridMargin
 
         latGrid = np.arange(minLat, maxLat + gridStep, gridStep, dtype=int)
         lonGrid = np.arange(minLon, maxLon + gridStep, gridStep, dtype=int)
-- 
2.43.0


From dccd3eebe95bf675df9503afe99a2758224d29b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:21 +0000
Subject: [PATCH 13/93] fix: accept a domain limit of zero when building the
 full wind field grid

---
 Utilities/maputils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Utilities/maputils.py b/Utilities/maputils.py
index 5eb9c7a..a7a3d9f 100644
--- a/Utilities/maputils.py
+++ b/Utilities/maputils.py
@@ -493,19 +493,19 @@ def makeGrid(cLon, cLat, margin=2, resolution=0.01, minLon=None, maxLon=None,
 
     gridSize = int(round(resolution * 1000))
 
-    if minLon:
+    if minLon is not None:
         minLon_ = int(round(1000 * minLon)) - int(round(1000 * margin))
     else:
         minLon_ = int(1000 * (cLon)) - int(round(1000 * margin))
-    if maxLon:
+    if maxLon is not None:
         maxLon_ = int(round(1000 * maxLon)) + int(round(1000 * margin)) + 1
     else:
         maxLon_ = int(1000 * (cLon)) + int(round(1000 * margin)) + 1
-    if minLat:
+    if minLat is not None:
         minLat_ = int(round(1000 * minLat)) - int(round(1000 * margin))
     else:
         minLat_ = int(1000 * (cLat)) - int(round(1000 * margin))
-    if maxLat:
+    if maxLat is not None:
         maxLat_ = int(round(1000 * maxLat)) + int(round(1000 * margin)) + 1
     else:
         maxLat_ = int(1000 * (cLat)) + int(round(1000 * margin)) + 1
-- 
2.43.0


From ed658b892683d8150f1ad0cf23466bb7f9045d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:49 +0000
Subject: [PATCH 14/93] fix: hand the direction of maximum winds to the wind
 field models in degrees

---
 wind/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index 2423be5..004e10c 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -30,7 +30,6 @@ calling the :meth:`run` with the location of a *configFile*::
 
 import logging as log
 import itertools
-import math
 import os
 import sys
 from os.path import join as pjoin
@@ -111,7 +110,7 @@ class WindfieldAroundTrack(object):
         self.beta = beta
         self.beta1 = beta1
         self.beta2 = beta2
-        self.thetaMax = math.radians(thetaMax)
+        self.thetaMax = thetaMax
         self.margin = margin
         self.resolution = resolution
         self.gustFactor = gustFactor
@@ -934,8 +933,6 @@ def run(configFile, callback=None):
     if config.has_option('Input', 'Multipliers'):
         multipliers = config.get('Input', 'Multipliers')
 
-    thetaMax = math.radians(thetaMax)
-
     # Attempt to start the track generator in parallel
     global MPI
     MPI = attemptParallel()
-- 
2.43.0


From 23395b47a19dd99948745d1b1aba736a3d1871f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:01:14 +0000
Subject: [PATCH 15/93] fix: keep the wind components and bearing of the
 strongest gust when merging tracks

---
 wind/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index 004e10c..dda87f7 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -499,9 +499,11 @@ class WindfieldGenerator(object):
 
         for result in results:
             gust1, bearing1, Vx1, Vy1, P1, lon1, lat1 = result
-            gust = np.where(gust1 > gust, gust1, gust)
-            Vx = np.where(gust1 > gust, Vx1, Vx)
-            Vy = np.where(gust1 > gust, Vy1, Vy)
+            mask = gust1 > gust
+            gust = np.where(mask, gust1, gust)
+            bearing = np.where(mask, bearing1, bearing)
+            Vx = np.where(mask, Vx1, Vx)
+            Vy = np.where(mask, Vy1, Vy)
             P = np.where(P1 < P, P1, P)
 
         return (gust, bearing, Vx, Vy, P, lon, lat)
-- 
2.43.0


From 83e3426e6add97ea202039e646b9c322d962773e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:29 +0000
Subject: [PATCH 16/93] fix: locate a storm on the edge of the wind field
 domain by rounding

---
 wind/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index dda87f7..d626a02 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -257,8 +257,8 @@ class WindfieldAroundTrack(object):
         gust = np.zeros_like(cGridX, dtype='f')
         pressure = np.ones_like(cGridX, dtype='f') * envPressure
 
-        lonCDegree = np.array(100. * self.track.Longitude, dtype=int)
-        latCDegree = np.array(100. * self.track.Latitude, dtype=int)
+        lonCDegree = np.rint(100. * self.track.Longitude).astype(int)
+        latCDegree = np.rint(100. * self.track.Latitude).astype(int)
 
         # We only consider the times when the TC track falls in the region
         timesInRegion = np.where((xMin <= self.track.Longitude) &
-- 
2.43.0


From e810b27455546349a8019cdcbdfc7e51794eeca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:42 +0000
Subject: [PATCH 17/93] fix: move a wind field file into place only when it is
 completely written

---
 wind/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index d626a02..7e3039c 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -703,7 +703,10 @@ class WindfieldGenerator(object):
             }
         }
 
-        nctools.ncSaveGrid(filename, dimensions, variables, gatts=gatts)
+        # An interrupted write must not leave a file that looks complete
+        partfile = filename + '.part'
+        nctools.ncSaveGrid(partfile, dimensions, variables, gatts=gatts)
+        os.replace(partfile, filename)
 
     def dumpGustsFromTrackfiles(self, trackfiles, windfieldPath,
                                 timeStepCallback=None):
-- 
2.43.0


From d3789e861da32de4b74d6b77291365ad05b00a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:19:27 +0000
Subject: [PATCH 18/93] fix: allow the archive time stamp to be switched off

---
 Utilities/process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Utilities/process.py b/Utilities/process.py
index 02cc2ec..feacc38 100644
--- a/Utilities/process.py
+++ b/Utilities/process.py
@@ -236,7 +236,7 @@ def pArchiveDateFormat(date_format=None):
     return rc
 
 
-def pArchiveTimestamp(timestamp=False):
+def pArchiveTimestamp(timestamp=None):
     """
     Set or get archive timstamp flag. If the flag is `True`, then
     files that are to be archived will have a timestamp inserted into
@@ -249,7 +249,7 @@ def pArchiveTimestamp(timestamp=False):
 
     """
     global GLOBAL_TIMESTAMP
-    if timestamp:
+    if timestamp is not None:
         GLOBAL_TIMESTAMP = timestamp
     rc = GLOBAL_TIMESTAMP
     return rc
-- 
2.43.0


From 71d7aa867ed4976ffcac7b3f814fb41c8734d90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:19:27 +0000
Subject: [PATCH 19/93] fix: report the removal of the processed files log
 correctly

---
 Utilities/process.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Utilities/process.py b/Utilities/process.py
index feacc38..ea683a0 100644
--- a/Utilities/process.py
+++ b/Utilities/process.py
@@ -158,9 +158,10 @@ def pDeleteDatFile():
     """
 
     rc = 0
-    if os.unlink(GLOBAL_DATFILE):
+    try:
+        os.unlink(GLOBAL_DATFILE)
         rc = 1
-    else:
+    except (OSError, TypeError):
         LOGGER.warning("Cannot remove dat file %s", GLOBAL_DATFILE)
     return rc
 
@@ -298,7 +299,7 @@ def pArchiveFile(filename):
             try:
                 os.makedirs(archive_dir)
             except OSError:
-                LOGGER.critcal("Cannot create %s", archive_dir)
+                LOGGER.critical("Cannot create %s", archive_dir)
                 raise
 
     if pArchiveTimestamp():
-- 
2.43.0


From b92fc378ad7d4e110cbb0bbd2efb0345cd1b8b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:57 +0000
Subject: [PATCH 20/93] fix: convert the time series and smoothing options to
 their types

Option names are in lower case when the values of a section are
converted, so parsers listed under mixed-case names were never used and
'False' was handed on as a (true) string.
---
 Utilities/config.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Utilities/config.py b/Utilities/config.py
index 10a65ee..b196ee3 100644
--- a/Utilities/config.py
+++ b/Utilities/config.py
@@ -84,7 +84,7 @@ PARSERS = {
     'Hazard_samplesize': int,
     'Hazard_percentilerange': int,
     'Hazard_extremevaluedistribution': str,
-    'Hazard_SmoothPlots': parseBool,
+    'Hazard_smoothplots': parseBool,
     'Input_landmask': str,
     'Input_locationfile': str,
     'Input_mslpgrid': parseList,
@@ -117,10 +117,10 @@ PARSERS = {
     'TCRM_numberofheadinglines': int,
     'TCRM_pressureunits': str,
     'TCRM_speedunits': str,
-    'Timeseries_Extract': parseBool,
-    'Timeseries_LocationFile': str,
-    'Timeseries_StationID': str,
-    'Timeseries_Windfields': parseBool,
+    'Timeseries_extract': parseBool,
+    'Timeseries_locationfile': str,
+    'Timeseries_stationid': str,
+    'Timeseries_windfields': parseBool,
     'TrackGenerator_numsimulations': int,
     'TrackGenerator_seasonseed': int,
     'TrackGenerator_trackseed': int,
-- 
2.43.0


From 53c0bef062c4af1a01aad96ad0e90b6866429f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:57 +0000
Subject: [PATCH 21/93] fix: format list options whatever the case of the
 option name

Setting 'MSLPGrid' stored the list itself instead of a comma-separated
text, and setting 'mslpgrid' to a text put commas between its letters.
---
 Utilities/config.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Utilities/config.py b/Utilities/config.py
index b196ee3..c272b38 100644
--- a/Utilities/config.py
+++ b/Utilities/config.py
@@ -324,10 +324,10 @@ class _ConfigParser(RawConfigParser):
 
         """
 
-        try:
-            formatter = FORMATERS['%s_%s' % (section, option)]
-            newvalue = formatter(value)
-        except KeyError:
+        name = '%s_%s' % (section, self.optionxform(option))
+        if name in FORMATERS and not isinstance(value, str):
+            newvalue = FORMATERS[name](value)
+        else:
             newvalue = value
         RawConfigParser.set(self, section, option, newvalue)
 
-- 
2.43.0


From 9111131647e015466c4ea6008175fcf5b34b3257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:57 +0000
Subject: [PATCH 22/93] fix: read untyped configuration values as literals only

A value such as 'input' or 'max' was evaluated as a Python expression and
returned as a built-in function, '1981-2010' became a number and
'input/list' raised a TypeError.
---
 Utilities/config.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Utilities/config.py b/Utilities/config.py
index c272b38..48eb78e 100644
--- a/Utilities/config.py
+++ b/Utilities/config.py
@@ -11,6 +11,7 @@
 """
 
 import io
+from ast import literal_eval
 from configparser import RawConfigParser
 import os.path
 
@@ -366,8 +367,8 @@ def cnfGetIniValue(configFile, section, option, default=None):
 
     if default is None:
         try:
-            res = config.geteval(section, option)
-        except (NameError, SyntaxError):
+            res = literal_eval(config.get(section, option))
+        except (ValueError, SyntaxError):
             res = config.get(section, option)
         return res
     if isinstance(default, str):
-- 
2.43.0


From 83b8eb3da030099efcd0fe779c6a19fa39be026a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:57 +0000
Subject: [PATCH 23/93] fix: return the configured value where the default is a
 list

---
 Utilities/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Utilities/config.py b/Utilities/config.py
index 48eb78e..e59800a 100644
--- a/Utilities/config.py
+++ b/Utilities/config.py
@@ -381,3 +381,5 @@ def cnfGetIniValue(configFile, section, option, default=None):
         return config.getfloat(section, option)
     if isinstance(default, dict):
         return config.geteval(section, option)
+    if isinstance(default, list):
+        return parseList(config.get(section, option))
-- 
2.43.0


From e3e4413f18a96002fadf235c58739722a26b5da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:29:37 +0000
Subject: [PATCH 24/93] fix: accept downloads without a content length

A server that does not announce the length made the download end with a
TypeError.
---
 Utilities/datasets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Utilities/datasets.py b/Utilities/datasets.py
index ccb9904..b00111c 100644
--- a/Utilities/datasets.py
+++ b/Utilities/datasets.py
@@ -59,7 +59,9 @@ class DataSet(object):
             meta = urlfile.info()
             data = BytesIO()
 
-            size = int(meta['Content-Length'])
+            size = meta['Content-Length']
+            if size is not None:
+                size = int(size)
             done = 0
             while True:
                 buf = urlfile.read(8192)
@@ -67,7 +69,7 @@ class DataSet(object):
                     break
                 data.write(buf)
                 done += len(buf)
-                if callback is not None:
+                if callback is not None and size:
                     callback(self.filename, done, size)
 
             data.seek(0)
-- 
2.43.0


From 72ec0dbf9ee36f861319433c5bcc2ab0867bfd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:29:37 +0000
Subject: [PATCH 25/93] fix: unpack zipped data sets

Reading from the archive object itself needs a member name, so every
zipped data set ended with a TypeError and an empty file. Take the member
with the name of the data set, or the first one.
---
 Utilities/datasets.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Utilities/datasets.py b/Utilities/datasets.py
index b00111c..98d1bd9 100644
--- a/Utilities/datasets.py
+++ b/Utilities/datasets.py
@@ -80,7 +80,10 @@ class DataSet(object):
 
             if self.compression == 'zip':
                 from zipfile import ZipFile
-                data = ZipFile(data)
+                archive = ZipFile(data)
+                names = archive.namelist()
+                member = self.filename if self.filename in names else names[0]
+                data = archive.open(member)
 
             with open(pjoin(self.path, self.filename), 'wb') as outfile:
                 outfile.write(data.read())
-- 
2.43.0


From 75a1129bd8958cfbb15a28e5cfd859eea25f70b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:29:37 +0000
Subject: [PATCH 26/93] fix: keep a downloaded data set only when it is
 complete

A transfer that was cut short or an archive that could not be unpacked
left a partial or empty file, which was taken for the data set from then
on. Check the length, unpack first and move the file into place when it
is completely written. Damaged archives are reported like other failed
downloads.
---
 Utilities/datasets.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/Utilities/datasets.py b/Utilities/datasets.py
index 98d1bd9..628cad3 100644
--- a/Utilities/datasets.py
+++ b/Utilities/datasets.py
@@ -3,9 +3,13 @@
 =============================================
 
 """
+import os
+import zlib
+from http.client import HTTPException
 from urllib.request import urlopen
 from urllib.error import URLError
 from io import BytesIO
+from zipfile import BadZipFile
 from Utilities.config import ConfigParser
 from os.path import isfile, splitext, join as pjoin
 
@@ -54,6 +58,9 @@ class DataSet(object):
         if self.isDownloaded():
             return
 
+        target = pjoin(self.path, self.filename)
+        partname = target + '.part'
+
         try:
             urlfile = urlopen(self.url, timeout=5)
             meta = urlfile.info()
@@ -72,6 +79,9 @@ class DataSet(object):
                 if callback is not None and size:
                     callback(self.filename, done, size)
 
+            if size is not None and done < size:
+                raise IOError('Download of %s is incomplete' % self.filename)
+
             data.seek(0)
 
             if self.compression == 'gz':
@@ -85,12 +95,20 @@ class DataSet(object):
                 member = self.filename if self.filename in names else names[0]
                 data = archive.open(member)
 
-            with open(pjoin(self.path, self.filename), 'wb') as outfile:
-                outfile.write(data.read())
+            data = data.read()
 
-        except URLError:
+            with open(partname, 'wb') as outfile:
+                outfile.write(data)
+            os.replace(partname, target)
+
+        except (URLError, HTTPException, BadZipFile, EOFError,
+                IndexError, zlib.error):
             raise IOError('Cannot download file')
 
+        finally:
+            if isfile(partname):
+                os.remove(partname)
+
     def isDownloaded(self):
         """
         Determine if a file has already been downloaded
-- 
2.43.0


From 86726142de01f1b88e5e2eccb14165191f342c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:29:37 +0000
Subject: [PATCH 27/93] fix: try every data set before giving up and list each
 one once

The run ended at the first data set that could not be downloaded, and
loading the list twice handled every data set twice.
---
 Utilities/datasets.py | 2 +-
 tcrm.py               | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/Utilities/datasets.py b/Utilities/datasets.py
index 628cad3..b8f1ef8 100644
--- a/Utilities/datasets.py
+++ b/Utilities/datasets.py
@@ -131,7 +131,7 @@ def loadDatasets(configFile):
     config.read(configFile)
     datasets = config.get('Input', 'Datasets').split(',')
 
-    global DATASETS
+    del DATASETS[:]
     for dataset in datasets:
         url = config.get(dataset, 'URL')
         path = config.get(dataset, 'path')
diff --git a/tcrm.py b/tcrm.py
index a0b7386..108f2f1 100755
--- a/tcrm.py
+++ b/tcrm.py
@@ -119,6 +119,7 @@ def doDataDownload(configFile):
 
     showProgressBar = config.get('Logging', 'ProgressBar')
 
+    failed = False
     datasets.loadDatasets(configFile)
     for dataset in datasets.DATASETS:
         if not dataset.isDownloaded():
@@ -137,7 +138,10 @@ def doDataDownload(configFile):
             except IOError:
                 log.error('Unable to download %s. Maybe a proxy problem?',
                           dataset.filename)
-                sys.exit(1)
+                failed = True
+
+    if failed:
+        sys.exit(1)
 
 
 @disableOnWorkers
-- 
2.43.0


From f513e67a9b321358ac3c00df058278f4c19a2068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:02 +0000
Subject: [PATCH 28/93] fix: leave the tracks unchanged when saving them

Saving replaced the dates of the track in memory by numbers, so the
track could not be used or saved again.
---
 Utilities/track.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Utilities/track.py b/Utilities/track.py
index 84b6b98..17dcae2 100644
--- a/Utilities/track.py
+++ b/Utilities/track.py
@@ -324,11 +324,12 @@ def ncSaveTracks(trackfile, tracks,
                                      zlib=True, complevel=8, shuffle=True)
         tvar = tdata.createVariable('track', tdtype, ('time',),
                                     zlib=True, complevel=8, shuffle=True)
-        t.data['Datetime'] = date2num(t.data['Datetime'], timeunits, calendar)
-        times[:] = t.data['Datetime']
+        data = t.data.copy()
+        data['Datetime'] = date2num(data['Datetime'], timeunits, calendar)
+        times[:] = data['Datetime'].astype('f8')
         times.units = 'hours since 1900-01-01 00:00'
         times.calendar = calendar
-        tvar[:] = t.data.astype(track_dtype)
+        tvar[:] = data.astype(track_dtype)
         tvar.long_name = "Tropical cyclone track data"
         tvar.time_units = 'hours since 1900-01-01 00:00'
         tvar.calendar = calendar
-- 
2.43.0


From b2846c465997674627975e55b59705044870cd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:02 +0000
Subject: [PATCH 29/93] fix: record the time units a track file is saved with

Tracks saved with other units than the default were read back with wrong
dates.
---
 Utilities/track.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Utilities/track.py b/Utilities/track.py
index 17dcae2..9a61927 100644
--- a/Utilities/track.py
+++ b/Utilities/track.py
@@ -327,11 +327,11 @@ def ncSaveTracks(trackfile, tracks,
         data = t.data.copy()
         data['Datetime'] = date2num(data['Datetime'], timeunits, calendar)
         times[:] = data['Datetime'].astype('f8')
-        times.units = 'hours since 1900-01-01 00:00'
+        times.units = timeunits
         times.calendar = calendar
         tvar[:] = data.astype(track_dtype)
         tvar.long_name = "Tropical cyclone track data"
-        tvar.time_units = 'hours since 1900-01-01 00:00'
+        tvar.time_units = timeunits
         tvar.calendar = calendar
         tvar.lon_units = 'degrees east'
         tvar.lat_units = 'degrees north'
-- 
2.43.0


From 208d7392ac36f9e4569d514780bbab6ac8f79d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:02 +0000
Subject: [PATCH 30/93] fix: keep the attributes of one track file out of the
 next

---
 Utilities/track.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Utilities/track.py b/Utilities/track.py
index 9a61927..91c75a2 100644
--- a/Utilities/track.py
+++ b/Utilities/track.py
@@ -266,7 +266,7 @@ def ncReadTrackData(trackfile):
 
 def ncSaveTracks(trackfile, tracks,
                  timeunits='hours since 1900-01-01 00:00',
-                 calendar='standard', attributes={}):
+                 calendar='standard', attributes=None):
     """
     Save a collection of :class:`Track` objects to a netCDF file. This
     makes use of netCDF4 compound data types to store the data as a
@@ -340,6 +340,7 @@ def ncSaveTracks(trackfile, tracks,
         tvar.length_units = 'km'
         tvar.trackId = repr(t.trackId)
 
+    attributes = dict(attributes or {})
     attributes['created_on'] = time.strftime(ISO_FORMAT, time.localtime())
     attributes['created_by'] = getpass.getuser()
     ncobj.setncatts(attributes)
-- 
2.43.0


From 99fa81dbe589db458fda8c11941532e4486791ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:05 +0000
Subject: [PATCH 31/93] fix: read track data from comma-separated files

The converters expect text but were given bytes, so every file was
returned as empty.
---
 Utilities/track.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Utilities/track.py b/Utilities/track.py
index 91c75a2..30bb1a0 100644
--- a/Utilities/track.py
+++ b/Utilities/track.py
@@ -372,7 +372,8 @@ def readTrackData(trackfile):
                           dtype={
                           'names': TCRM_COLS,
                           'formats': TCRM_FMTS},
-                          converters=TCRM_CNVT)
+                          converters=TCRM_CNVT,
+                          encoding='utf-8')
     except ValueError:
         # return an empty array with the appropriate `dtype` field names
         return np.empty(0, dtype={
-- 
2.43.0


From 9896e07db4441349f5c27eb23a8c50c7f7cecada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:42 +0000
Subject: [PATCH 32/93] fix: do not leave the tracks of an earlier run for an
 empty simulation

Saving no tracks over an existing track file kept that file, and its
tracks entered the wind fields of the new run.
---
 Utilities/track.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Utilities/track.py b/Utilities/track.py
index 30bb1a0..b38d51f 100644
--- a/Utilities/track.py
+++ b/Utilities/track.py
@@ -295,6 +295,8 @@ def ncSaveTracks(trackfile, tracks,
 
     if len(tracks) == 0:
         log.info("No tracks to be stored in track file: {0}".format(trackfile))
+        if os.path.exists(trackfile):
+            os.remove(trackfile)
         return
 
     try:
-- 
2.43.0


From a399874f8a2b612a6c1122e77c7c2cd6e5918f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:51 +0000
Subject: [PATCH 33/93] fix: split tracks at large jumps in any direction

Only jumps to the east or north separated two storms that share season
and number; jumps to the west or south joined them into one track.
---
 DataProcess/DataProcess.py | 7 ++++---
 Utilities/loadData.py      | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/DataProcess/DataProcess.py b/DataProcess/DataProcess.py
index 9693a98..3ee87b4 100644
--- a/DataProcess/DataProcess.py
+++ b/DataProcess/DataProcess.py
@@ -245,7 +245,8 @@ class DataProcess(object):
             # Calculate julian days:
             jdays = loadData.julianDays(year, month, day, hour, minute)
 
-        delta_lon = np.diff(lon)
+        # Smallest difference in longitude, whichever way around
+        delta_lon = np.mod(np.diff(lon) + 180., 360.) - 180.
         delta_lat = np.diff(lat)
 
         # Split into separate tracks if large jump occurs (delta_lon >
@@ -254,8 +255,8 @@ class DataProcess(object):
         # match but basins are different as occurs in the IBTrACS
         # dataset.  This problem can also be prevented if the
         # 'tcserialno' column is specified.
-        indicator[np.where(delta_lon > 15)[0] + 1] = 1
-        indicator[np.where(delta_lat > 5)[0] + 1] = 1
+        indicator[np.where(np.abs(delta_lon) > 15)[0] + 1] = 1
+        indicator[np.where(np.abs(delta_lat) > 5)[0] + 1] = 1
 
         # Save information required for frequency auto-calculation
         try:
diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index badf3a7..412987b 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -864,7 +864,8 @@ def loadTrackFile(configFile, trackFile, source, missingValue=0,
 
     lat = np.array(inputData['lat'], 'd')
     lon = np.mod(np.array(inputData['lon'], 'd'), 360)
-    delta_lon = np.diff(lon)
+    # Smallest difference in longitude, whichever way around
+    delta_lon = np.mod(np.diff(lon) + 180., 360.) - 180.
     delta_lat = np.diff(lat)
 
     # Split into separate tracks if large jump occurs (delta_lon > 10 degrees
@@ -873,8 +874,8 @@ def loadTrackFile(configFile, trackFile, source, missingValue=0,
     # numbers match but basins are different as occurs in the IBTrACS dataset.
     # This problem can also be prevented if the 'tcserialno' column is
     # specified.
-    indicator[np.where(delta_lon > 10)[0] + 1] = 1
-    indicator[np.where(delta_lat > 5)[0] + 1] = 1
+    indicator[np.where(np.abs(delta_lon) > 10)[0] + 1] = 1
+    indicator[np.where(np.abs(delta_lat) > 5)[0] + 1] = 1
 
     pressure = filterPressure(np.array(inputData['pressure'], 'd'),
                               inputPressureUnits, missingValue)
-- 
2.43.0


From 54bef942e2c78f84d49d666869973bac90611da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:51 +0000
Subject: [PATCH 34/93] fix: do not round the time between observations to
 whole hours

Speeds and rates of change were wrong for observations that are not a
whole number of hours apart.
---
 Utilities/loadData.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index 412987b..72ef203 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -519,7 +519,7 @@ def getTimeDelta(year, month, day, hour, minute):
     """
     dates = [datetime(*x) for x in zip(year, month, day, hour, minute)]
     diffs = [d1 - d0 for d0, d1 in zip(dates[:-1], dates[1:])]
-    return np.array([0.0] + [round(d.days * 24. + d.seconds / 3600.)
+    return np.array([0.0] + [d.days * 24. + d.seconds / 3600.
                              for d in diffs], 'f')
 
 def getTimeElapsed(indicator, year, month, day, hour, minute):
-- 
2.43.0


From 07a56c44c8a1dd2b39f53885818f448830c93bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:51 +0000
Subject: [PATCH 35/93] fix: read dates given as separate year, month, day and
 hour columns

A missing column of a structured array raises a ValueError, so data
without a date column could not be read at all.
---
 Utilities/loadData.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index 72ef203..d6d7277 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -430,8 +430,13 @@ def parseDates(data, indicator, datefmt='%Y-%m-%d %H:%M:%S'):
 
     """
     try:
-        year, month, day, hour, minute, datetimes = date2ymdh(data['date'], datefmt)
-    except (KeyError):
+        dates = data['date']
+    except (ValueError, KeyError):
+        dates = None
+
+    if dates is not None:
+        year, month, day, hour, minute, datetimes = date2ymdh(dates, datefmt)
+    else:
         # Sort out date/time information:
         month = np.array(data['month'], 'i')
         day = np.array(data['day'], 'i')
-- 
2.43.0


From 0afbb96bc30ca3381b6d87f7e7d3f2066a305aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:16 +0000
Subject: [PATCH 36/93] fix: use the date format of the data source when
 processing track data

---
 DataProcess/DataProcess.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DataProcess/DataProcess.py b/DataProcess/DataProcess.py
index 3ee87b4..b89dab0 100644
--- a/DataProcess/DataProcess.py
+++ b/DataProcess/DataProcess.py
@@ -197,6 +197,9 @@ class DataProcess(object):
         inputSpeedUnits = config.get(self.source, 'SpeedUnits')
         inputPressureUnits = config.get(self.source, 'PressureUnits')
         inputLengthUnits = config.get(self.source, 'LengthUnits')
+        inputDateFormat = '%Y-%m-%d %H:%M:%S'
+        if config.has_option(self.source, 'DateFormat'):
+            inputDateFormat = config.get(self.source, 'DateFormat')
         startSeason = config.getint('DataProcess', 'StartSeason')
 
         indicator = loadData.getInitialPositions(inputData)
@@ -237,7 +240,7 @@ class DataProcess(object):
                 pass
 
             year, month, day, hour, minute, datetimes \
-                = loadData.parseDates(inputData, indicator)
+                = loadData.parseDates(inputData, indicator, inputDateFormat)
 
             # Time between observations:
             dt = loadData.getTimeDelta(year, month, day, hour, minute)
-- 
2.43.0


From a7ed7cee87cc866da6513ca780eabdfd47790d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:16 +0000
Subject: [PATCH 37/93] fix: filter seasons only when asked to, and only when
 there are seasons

Processing the input data ignored the FilterSeasons option and did not
filter data that give the age of a storm. Loading tracks failed for data
without a season column.
---
 DataProcess/DataProcess.py | 13 +++++++------
 Utilities/loadData.py      |  7 +++++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/DataProcess/DataProcess.py b/DataProcess/DataProcess.py
index b89dab0..2f58889 100644
--- a/DataProcess/DataProcess.py
+++ b/DataProcess/DataProcess.py
@@ -201,6 +201,7 @@ class DataProcess(object):
         if config.has_option(self.source, 'DateFormat'):
             inputDateFormat = config.get(self.source, 'DateFormat')
         startSeason = config.getint('DataProcess', 'StartSeason')
+        filterSeasons = config.getboolean('DataProcess', 'FilterSeasons')
 
         indicator = loadData.getInitialPositions(inputData)
         lat = np.array(inputData['lat'], 'float32')
@@ -220,12 +221,7 @@ class DataProcess(object):
         if self.progressbar is not None:
             self.progressbar.update(0.125)
 
-        # Sort date/time information
-        try:
-            dt = np.empty(indicator.size, 'f')
-            dt[1:] = np.diff(inputData['age'])
-        except (ValueError, KeyError):
-
+        if filterSeasons:
             try:
                 self.logger.info(("Filtering input data by season: "
                                   f"season >= {startSeason}"))
@@ -239,6 +235,11 @@ class DataProcess(object):
             except (ValueError, KeyError):
                 pass
 
+        # Sort date/time information
+        try:
+            dt = np.empty(indicator.size, 'f')
+            dt[1:] = np.diff(inputData['age'])
+        except (ValueError, KeyError):
             year, month, day, hour, minute, datetimes \
                 = loadData.parseDates(inputData, indicator, inputDateFormat)
 
diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index d6d7277..685deb3 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -843,8 +843,11 @@ def loadTrackFile(configFile, trackFile, source, missingValue=0,
 
     if config.getboolean('DataProcess', 'FilterSeasons'):
         startSeason = config.getint('DataProcess', 'StartSeason')
-        idx = np.where(inputData['season'] >= startSeason)[0]
-        inputData = inputData[idx]
+        if 'season' in inputData.dtype.names:
+            idx = np.where(inputData['season'] >= startSeason)[0]
+            inputData = inputData[idx]
+        else:
+            LOG.warning("No season data - not filtering by season")
 
     # Determine the initial TC positions...
     indicator = getInitialPositions(inputData)
-- 
2.43.0


From 4f0a0031fef443e088b5d0394d94e0057ae58a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:16 +0000
Subject: [PATCH 38/93] fix: process track data that give the age of a storm

The year and day of year were never set for data with an age column.
---
 DataProcess/DataProcess.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DataProcess/DataProcess.py b/DataProcess/DataProcess.py
index 2f58889..ea65962 100644
--- a/DataProcess/DataProcess.py
+++ b/DataProcess/DataProcess.py
@@ -239,6 +239,8 @@ class DataProcess(object):
         try:
             dt = np.empty(indicator.size, 'f')
             dt[1:] = np.diff(inputData['age'])
+            year, month, day, hour, minute, datetimes \
+                = loadData.parseAge(inputData, indicator)
         except (ValueError, KeyError):
             year, month, day, hour, minute, datetimes \
                 = loadData.parseDates(inputData, indicator, inputDateFormat)
@@ -246,8 +248,8 @@ class DataProcess(object):
             # Time between observations:
             dt = loadData.getTimeDelta(year, month, day, hour, minute)
 
-            # Calculate julian days:
-            jdays = loadData.julianDays(year, month, day, hour, minute)
+        # Calculate julian days:
+        jdays = loadData.julianDays(year, month, day, hour, minute)
 
         # Smallest difference in longitude, whichever way around
         delta_lon = np.mod(np.diff(lon) + 180., 360.) - 180.
-- 
2.43.0


From c6d5dbd02c310582826d840322c2260772dbf1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:16 +0000
Subject: [PATCH 39/93] fix: treat missing wind speeds and radii as missing

Wind speeds were arbitrary numbers without a wind speed column. Negative
codes for missing values were used as wind speeds and radii, and the rate
of size change following a missing radius was a huge number.
---
 DataProcess/DataProcess.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/DataProcess/DataProcess.py b/DataProcess/DataProcess.py
index ea65962..3792e9a 100644
--- a/DataProcess/DataProcess.py
+++ b/DataProcess/DataProcess.py
@@ -294,7 +294,7 @@ class DataProcess(object):
             vmax = np.array(inputData['vmax'], 'float32')
         except (ValueError, KeyError):
             self.logger.warning("No max wind speed data")
-            vmax = np.empty(indicator.size, 'f')
+            vmax = np.full(indicator.size, sys.maxsize, 'f')
         else:
             novalue_index = np.where(vmax == sys.maxsize)
             vmax = metutils.convert(vmax, inputSpeedUnits, "mps")
@@ -311,6 +311,9 @@ class DataProcess(object):
             rmax = metutils.convert(rmax, inputLengthUnits, "km")
             rmax[novalue_index] = sys.maxsize
 
+            # As for pressure, there can be a mix of missing value codes
+            rmax = np.where(rmax <= 0, sys.maxsize, rmax)
+
             self._rmax(rmax, indicator)
             self._rmaxRate(rmax, dt, indicator)
         except (ValueError, KeyError):
@@ -699,7 +702,8 @@ class DataProcess(object):
         Output: None - data is written to file
         """
         self.logger.info('Extracting maximum sustained wind speeds')
-        np.putmask(windSpeed, windSpeed > 200., sys.maxsize)
+        np.putmask(windSpeed, (windSpeed < 0.) | (windSpeed > 200.),
+                   sys.maxsize)
         if self.ncflag:
             self.data['windspeed'] = windSpeed
         else:
@@ -776,6 +780,7 @@ class DataProcess(object):
                           .format(pjoin(self.processPath, 'rmax_rate')))
         np.putmask(rmaxRate, indicator, sys.maxsize)
         np.putmask(rmaxRate, rmax >= sys.maxsize, sys.maxsize)
+        np.putmask(rmaxRate[1:], rmax[:-1] >= sys.maxsize, sys.maxsize)
         np.putmask(rmaxRate, (rmaxRate >= sys.maxsize) |
                    (rmaxRate <= -sys.maxsize), sys.maxsize)
         np.putmask(rmaxRate, np.isnan(rmaxRate), sys.maxsize)
-- 
2.43.0


From 7fb51c08cf4e1e450da90df38fca5022ad805898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:54:16 +0000
Subject: [PATCH 40/93] fix: count the age of a storm from its own first record

A storm separated from another one by a large jump kept counting from the
first record of the other storm.
---
 Utilities/loadData.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Utilities/loadData.py b/Utilities/loadData.py
index 685deb3..389929d 100644
--- a/Utilities/loadData.py
+++ b/Utilities/loadData.py
@@ -857,12 +857,10 @@ def loadTrackFile(configFile, trackFile, source, missingValue=0,
     if 'age' in inputData.dtype.names:
         year, month, day, hour, minute, datetimes = parseAge(inputData,
                                                              indicator)
-        timeElapsed = inputData['age']
     else:
         year, month, day, hour, minute, datetimes = parseDates(inputData,
                                                                indicator,
                                                                inputDateFormat)
-        timeElapsed = getTimeElapsed(indicator, year, month, day, hour, minute)
 
     # Time between observations:
     dt = getTimeDelta(year, month, day, hour, minute)
@@ -885,6 +883,12 @@ def loadTrackFile(configFile, trackFile, source, missingValue=0,
     indicator[np.where(np.abs(delta_lon) > 10)[0] + 1] = 1
     indicator[np.where(np.abs(delta_lat) > 5)[0] + 1] = 1
 
+    # Age of each storm, once the storms are separated:
+    if 'age' in inputData.dtype.names:
+        timeElapsed = inputData['age']
+    else:
+        timeElapsed = getTimeElapsed(indicator, year, month, day, hour, minute)
+
     pressure = filterPressure(np.array(inputData['pressure'], 'd'),
                               inputPressureUnits, missingValue)
     try:
-- 
2.43.0


From c02c5337eb93f216f0cb83e30a128cd55c9a65b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:48 +0000
Subject: [PATCH 41/93] fix: number cells from the corner of the domain in
 every case

Points were given the wrong cell number in a domain that contains the
equator or the Greenwich meridian, and for cells or limits that are not
whole degrees.
---
 Utilities/stats.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/Utilities/stats.py b/Utilities/stats.py
index 67b5cbe..3861876 100644
--- a/Utilities/stats.py
+++ b/Utilities/stats.py
@@ -12,7 +12,6 @@
 import sys
 import logging
 
-import math
 import numpy as np
 
 from .grid import grdRead
@@ -90,17 +89,17 @@ def getCellNum(lon, lat, gridLimit, gridSpace):
     """
     Return the cell number given longitude and latititude
     """
-    lon = int(math.floor(lon))
-    lat = int(math.ceil(lat))
-
     if (lon < gridLimit['xMin'] or lon >= gridLimit['xMax'] or
             lat <= gridLimit['yMin'] or lat > gridLimit['yMax']):
         raise ValueError('Invalid input on cellNum: cell number is out of range')
 
-    j = abs((abs(lon) - abs(gridLimit['xMin']))) // abs(gridSpace['x'])
-    i = abs((abs(lat) - abs(gridLimit['yMax']))) // abs(gridSpace['y'])
+    # Corners of the cells, as in getCellLonLat
+    latCells = np.arange(gridLimit['yMax'], gridLimit['yMin'], -gridSpace['y'])
+    lonCells = np.arange(gridLimit['xMin'], gridLimit['xMax'], gridSpace['x'])
+    j = np.searchsorted(lonCells, lon, side='right') - 1
+    i = np.searchsorted(-latCells, -lat, side='right') - 1
 
-    return int(i * abs((gridLimit['xMax'] - gridLimit['xMin']) // gridSpace['x']) + j)
+    return int(i * lonCells.size + j)
 
 
 def getCellLonLat(cellNum, gridLimit, gridSpace):
-- 
2.43.0


From 8ce98c4a1736f4a24ca964ca015fee2c199ee617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:33 +0000
Subject: [PATCH 42/93] fix: save the genesis distribution on the grid it is
 calculated on

---
 StatInterface/KDEOrigin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StatInterface/KDEOrigin.py b/StatInterface/KDEOrigin.py
index e043825..94f99ea 100644
--- a/StatInterface/KDEOrigin.py
+++ b/StatInterface/KDEOrigin.py
@@ -205,7 +205,7 @@ class KDEOrigin(object):
         """
         xx, yy = np.meshgrid(self.x, self.y)
         xy = np.vstack([xx.ravel(), yy.ravel()])
-        self.cz = self.kde.cdf(data_predict=xy)
+        self.cz = self.kde.cdf(data_predict=xy).reshape(xx.shape)
 
         if save:
             outputFile = pjoin(self.processPath, 'originCDF.nc')
-- 
2.43.0


From 64ed3dfb235711cf8cff41ab8588aa57d6b99d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:33 +0000
Subject: [PATCH 43/93] fix: take the genesis distribution given to
 setKDEOrigins

---
 StatInterface/SamplingOrigin.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/StatInterface/SamplingOrigin.py b/StatInterface/SamplingOrigin.py
index eb8e106..6efef7d 100644
--- a/StatInterface/SamplingOrigin.py
+++ b/StatInterface/SamplingOrigin.py
@@ -89,8 +89,8 @@ class SamplingOrigin(object):
         """
         if outputPath:
             try:
-                self.x, self.y, self.z = grdRead(pjoin(self.outputPath,
-                                                       'originPDF.txt'))
+                self.x, self.y, self.z = grdRead(pjoin(outputPath,
+                                                  'originPDF.txt'))
             except IOError:
                 LOG.critical(('Error! Files relating to KDE of cyclone '
                               'origins does not exist. Execute KDE of '
@@ -109,11 +109,13 @@ class SamplingOrigin(object):
                 raise
             self._calculateCDF()
         elif isinstance(kdeOriginZ, np.ndarray):
-            self.x, self.y, self.z = grdRead(kdeOriginZ)
+            self.x = kdeOriginX
+            self.y = kdeOriginY
+            self.z = kdeOriginZ
             self._calculateCDF()
         else:
             LOG.error("No input arguments")
-            raise
+            raise ValueError("No input arguments")
 
     def generateOneSample(self):
         """Generate a random cyclone origin."""
-- 
2.43.0


From da0cb90edb3f8e68a187d5b203d90c10fbc09120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:33 +0000
Subject: [PATCH 44/93] fix: estimate the genesis day distribution from the
 genesis days

---
 StatInterface/KDEParameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/StatInterface/KDEParameters.py b/StatInterface/KDEParameters.py
index 6f339ed..5b60bbc 100644
--- a/StatInterface/KDEParameters.py
+++ b/StatInterface/KDEParameters.py
@@ -194,9 +194,9 @@ class KDEParameters(object):
         ndata = np.concatenate([data - 365, data, data + 365])
 
         if bw is None:
-            bw = stats.bandwidth(self.parameters)
+            bw = stats.bandwidth(ndata)
 
-        kde = sm.nonparametric.KDEUnivariate(self.parameters)
+        kde = sm.nonparametric.KDEUnivariate(ndata)
         kde.fit(kernel=self.kdeType, bw=bw, fft=False, 
                 gridsize=len(ndays), clip=(min(ndays), max(ndays)), cut=0)
         #try:
-- 
2.43.0


From 5dba982a699c2ff8eb8a9a07f2738d629e17f9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:47 +0000
Subject: [PATCH 45/93] fix: extract time series also for storms whose wind
 field exists

---
 wind/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index 7e3039c..706bc3d 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -531,7 +531,7 @@ class WindfieldGenerator(object):
         """
         for track in trackiter:
             dumpfile = self.gustFilename(windfieldPath, track)
-            if self.gustFileComplete(dumpfile):
+            if timeStepCallback is None and self.gustFileComplete(dumpfile):
                 log.info("Skipping existing wind field for track {0:03d}-{1:05d}"
                          .format(*track.trackId))
                 continue
-- 
2.43.0


From 91b20b065269546f7b75c0bb7fe373e9b34c6615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:47 +0000
Subject: [PATCH 46/93] fix: write the time series extracted by all processes

---
 wind/__init__.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index 706bc3d..8eaef1d 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -974,11 +974,15 @@ def run(configFile, callback=None):
     comm.barrier()
 
     wfg.dumpGustsFromTrackfiles(trackfiles, windfieldPath, timestepCallback)
-    try:
-        ts.shutdown()
-    except NameError:
-
-        pass
+    if timestepCallback is not None:
+        if comm.size > 1:
+            # Each process has the time series of its own tracks
+            data = comm.gather([stn.data.data for stn in ts.stations], root=0)
+            for part in (data or [])[1:]:
+                for stn, records in zip(ts.stations, part):
+                    stn.data.extend(records)
+        if comm.rank == 0:
+            ts.shutdown()
 
     comm.barrier()
 
-- 
2.43.0


From 6b09675480c8570d8ab474c46f5347855c47232e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:47 +0000
Subject: [PATCH 47/93] fix: accept a station list with a single station

---
 Utilities/timeseries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/timeseries.py b/Utilities/timeseries.py
index 087644d..419e7d0 100644
--- a/Utilities/timeseries.py
+++ b/Utilities/timeseries.py
@@ -160,7 +160,7 @@ class Timeseries(object):
 
 
         else:
-            stndata = flLoadFile(stnFile, delimiter=',')
+            stndata = np.atleast_2d(flLoadFile(stnFile, delimiter=','))
             # If there are more than 3 columns, save the additional
             # columns as 'metadata'
             if stndata.shape[1] > 3:
-- 
2.43.0


From 3dd313f1aede21461008bde67a8fdbf5125ab85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:47 +0000
Subject: [PATCH 48/93] fix: keep the station identifiers of a text station
 list

---
 Utilities/timeseries.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Utilities/timeseries.py b/Utilities/timeseries.py
index 419e7d0..b36dfe4 100644
--- a/Utilities/timeseries.py
+++ b/Utilities/timeseries.py
@@ -166,7 +166,8 @@ class Timeseries(object):
             if stndata.shape[1] > 3:
                 self.metadata = stndata[:, 3:]
                 self.meta = True
-            stnid = stndata[:, 0]
+            stnid = np.atleast_1d(np.genfromtxt(stnFile, dtype=str, comments='%',
+                                                delimiter=',', usecols=0))
             stnlon = stndata[:, 1].astype(float)
             stnlat = stndata[:, 2].astype(float)
             for sid, lon, lat in zip(stnid, stnlon, stnlat):
-- 
2.43.0


From a93f57c15edc3bcb66360806fa3066ea3536ffaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:30:42 +0000
Subject: [PATCH 49/93] fix: plot every station under its own name

---
 PlotInterface/plotTimeseries.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/PlotInterface/plotTimeseries.py b/PlotInterface/plotTimeseries.py
index 49afc71..cb863ed 100644
--- a/PlotInterface/plotTimeseries.py
+++ b/PlotInterface/plotTimeseries.py
@@ -45,9 +45,10 @@ INPUT_CNVT = {
 def loadTimeseriesData(datafile):
     logging.debug("Loading timeseries data from {0}".format(datafile))
     try:
-        return np.genfromtxt(datafile, dtype=INPUT_FMTS, names=INPUT_COLS,
-                             comments='#', delimiter=',', skip_header=1,
-                             converters=INPUT_CNVT)
+        return np.atleast_1d(
+            np.genfromtxt(datafile, dtype=INPUT_FMTS, names=INPUT_COLS,
+                          comments='#', delimiter=',', skip_header=1,
+                          converters=INPUT_CNVT))
     except ValueError:
         logging.warning("Timeseries data file is empty - returning empty array")
         return np.empty(0, dtype={
@@ -95,9 +96,10 @@ def plotTimeseries(inputPath, outputPath, locID=None):
         files = os.listdir(inputPath)
         inputFileList = [f for f in files if f.startswith('ts.')]
         for f in inputFileList:
-            # Here we assume the timeseries files are named ts.<location ID>.dat
-            locID = f.rstrip('.csv').lstrip('ts.')
-            outputFile = pjoin(outputPath, '%s.png' % f.rstrip('.csv'))
+            # Here we assume the timeseries files are named ts.<location ID>.csv
+            name = os.path.splitext(f)[0]
+            locID = name[len('ts.'):]
+            outputFile = pjoin(outputPath, '%s.png' % name)
             inputData = loadTimeseriesData(pjoin(inputPath, f))
 
 
-- 
2.43.0


From 05f29b11e25d2578e08525b0241948a42c8d1d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:26 +0000
Subject: [PATCH 50/93] fix: do not wait for a segment another thread has taken

A worker that saw a non-empty queue waited forever when another thread took
the last segment before it, and the process never ended.
---
 ProcessMultipliers/processMultipliers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ProcessMultipliers/processMultipliers.py b/ProcessMultipliers/processMultipliers.py
index f45e1eb..7e1dd96 100755
--- a/ProcessMultipliers/processMultipliers.py
+++ b/ProcessMultipliers/processMultipliers.py
@@ -1059,8 +1059,12 @@ def processMultV2(wspd, uu, vv, lon, lat, working_dir, dirns,
 
 
 def call_process_multiplier_segment(segment_queue, source_dir_band, wind_prj, bear_prj, dst_band):
-    while not segment_queue.empty():
-        processMultiplierSegment(segment_queue.get(), source_dir_band, wind_prj, bear_prj, dst_band)
+    while True:
+        try:
+            segment = segment_queue.get_nowait()
+        except queue.Empty:
+            return
+        processMultiplierSegment(segment, source_dir_band, wind_prj, bear_prj, dst_band)
 
 
 def processMultiplierSegment(segment, source_dir_band, wind_prj, bear_prj, dst_band):
-- 
2.43.0


From b619f2f1eb9d481c057fef3377559f0c69579f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:26 +0000
Subject: [PATCH 51/93] fix: give northerly winds rounded to 360 degrees a
 local wind speed

The direction is stored in single precision. Directions just short of north
become 360 degrees, which is in no sector, and their local wind speed was zero.
---
 ProcessMultipliers/processMultipliers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ProcessMultipliers/processMultipliers.py b/ProcessMultipliers/processMultipliers.py
index 7e1dd96..b0bce70 100755
--- a/ProcessMultipliers/processMultipliers.py
+++ b/ProcessMultipliers/processMultipliers.py
@@ -872,7 +872,8 @@ def processMult(wspd, uu, vv, lon, lat, working_dir, m4_max_file = 'm4_ne.tif',
     wind_geot = wind_prj_ds.GetGeoTransform()
 
     wind_data = wind_prj.ReadAsArray()
-    bear_data = bear_prj.ReadAsArray()
+    # Northerly winds can be rounded to 360 degrees in the raster
+    bear_data = np.mod(bear_prj.ReadAsArray(), 360.)
     uu_data = uu_prj.ReadAsArray()
     vv_data = vv_prj.ReadAsArray()
     bearing = calculateBearing(uu_data, vv_data)
@@ -1096,7 +1097,8 @@ def processMultiplierSegment(segment, source_dir_band, wind_prj, bear_prj, dst_b
     with threadLock_gust:
         wind_data = wind_prj.ReadAsArray(x_offset, y_offset, width, height)
     with threadLock_bear:
-        bear_data = bear_prj.ReadAsArray(x_offset, y_offset, width, height)
+        # Northerly winds can be rounded to 360 degrees in the raster
+        bear_data = np.mod(bear_prj.ReadAsArray(x_offset, y_offset, width, height), 360.)
     m4_all = loadAllBandArrayData(source_dir_band, segment_info=segment)
     local = np.zeros([height, width], dtype='float32')
     for i in list(indices.keys()):
-- 
2.43.0


From c02f99b56439daa82a526407a41176c3a01a437a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:26 +0000
Subject: [PATCH 52/93] fix: place the wind field correctly when applying
 multipliers

The multiplier processing takes fields that run from north to south, as they
are stored in the gust files. The wind field stage handed them over running
from south to north, so that the raster lay north of the domain.
---
 wind/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index 8eaef1d..2219642 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -765,13 +765,13 @@ class WindfieldGenerator(object):
             # gust, bearing, Vx, Vy, P, lon, lat = result = N
             # windfield_path = None
             gust, bearing, Vx, Vy, P, lon, lat = result
-            # Convert the .nc lat/lon to raster lat/lon
+            # Convert the .nc lat/lon to raster lat/lon, north to south
             delta = lon[1] - lon[0]
             lon = lon - delta / 2.
-            lat = lat - delta / 2.
+            lat = np.flipud(lat) - delta / 2.
 
-            pM.processMult(gust, Vx, Vy, lon, lat, self.windfieldPath,
-                           self.multipliers)
+            pM.processMult(np.flipud(gust), np.flipud(Vx), np.flipud(Vy),
+                           lon, lat, self.windfieldPath, self.multipliers)
 
 def inRegion(t, gridLimit, margin):
     """
-- 
2.43.0


From da371aa032172edbda0614304b84544bc23ef791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:26 +0000
Subject: [PATCH 53/93] fix: import the shapefile library in tsmultipliers

---
 Utilities/tsmultipliers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/tsmultipliers.py b/Utilities/tsmultipliers.py
index b226ad5..5f466e7 100644
--- a/Utilities/tsmultipliers.py
+++ b/Utilities/tsmultipliers.py
@@ -23,10 +23,10 @@ log = logging.getLogger(__name__)
 log.addHandler(logging.NullHandler())
 
 import numpy as np
+import shapefile
 from Utilities.files import flStartLog
 from Utilities.config import ConfigParser
 from Utilities.dynarray import DynamicRecArray
-from Utilities import shapefile
 from Utilities import pathLocator
 
 
-- 
2.43.0


From 6e4aea931d9536984fb5de50a5a531aeb52ce9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:26 +0000
Subject: [PATCH 54/93] fix: weight the multipliers by nearness to the wind
 direction

The weights of the two neighbouring directions were swapped: wind from the
north had the multiplier for north-east and so on.
---
 Utilities/tsmultipliers.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/Utilities/tsmultipliers.py b/Utilities/tsmultipliers.py
index 5f466e7..c3b4f7c 100644
--- a/Utilities/tsmultipliers.py
+++ b/Utilities/tsmultipliers.py
@@ -81,29 +81,29 @@ def tsmultiply(inputFile, multipliers, outputFile):
     # Apply multipliers:
 
     ii = np.where((bear >= 0.0) & (bear < 45.))
-    gust[ii] *= (1./45.)*(mcn*(bear[ii] - 0.0) +
-                          mcne*(45. - bear[ii]))
+    gust[ii] *= (1./45.)*(mcn*(45. - bear[ii]) +
+                          mcne*(bear[ii] - 0.0))
     ii = np.where((bear >= 45.0) & (bear < 90.))
-    gust[ii] *= (1./45.)*(mcne*(bear[ii] - 45.0) +
-                          mce*(90. - bear[ii]))
+    gust[ii] *= (1./45.)*(mcne*(90. - bear[ii]) +
+                          mce*(bear[ii] - 45.0))
     ii = np.where((bear >= 90.0) & (bear < 135.))
-    gust[ii] *= (1./45.)*(mce*(bear[ii] - 90.0) +
-                          mcse*(135. - bear[ii]))
+    gust[ii] *= (1./45.)*(mce*(135. - bear[ii]) +
+                          mcse*(bear[ii] - 90.0))
     ii = np.where((bear >= 135.0) & (bear < 180.))
-    gust[ii] *= (1./45.)*(mcse*(bear[ii] - 135.0) +
-                          mcs*(180. - bear[ii]))
+    gust[ii] *= (1./45.)*(mcse*(180. - bear[ii]) +
+                          mcs*(bear[ii] - 135.0))
     ii = np.where((bear >= 180.0) & (bear < 225.))
-    gust[ii] *= (1./45.)*(mcs*(bear[ii] - 180.0) +
-                          mcsw*(225. - bear[ii]))
+    gust[ii] *= (1./45.)*(mcs*(225. - bear[ii]) +
+                          mcsw*(bear[ii] - 180.0))
     ii = np.where((bear >= 225.0) & (bear < 270.))
-    gust[ii] *= (1./45.)*(mcsw*(bear[ii] - 225.0) +
-                          mcw*(270. - bear[ii]))
+    gust[ii] *= (1./45.)*(mcsw*(270. - bear[ii]) +
+                          mcw*(bear[ii] - 225.0))
     ii = np.where((bear >= 270.0) & (bear < 315.))
-    gust[ii] *= (1./45.)*(mcw*(bear[ii] - 270.0) +
-                          mcnw*(315. - bear[ii]))
+    gust[ii] *= (1./45.)*(mcw*(315. - bear[ii]) +
+                          mcnw*(bear[ii] - 270.0))
     ii = np.where((bear >= 315.0) & (bear <= 360.))
-    gust[ii] *= (1./45.)*(mcnw*(bear[ii] - 315.0) +
-                          mcn*(360. - bear[ii]))
+    gust[ii] *= (1./45.)*(mcnw*(360. - bear[ii]) +
+                          mcn*(bear[ii] - 315.0))
 
 
     ii = np.where(gust==0)
-- 
2.43.0


From 83fffeb938538df0ad696d7ca35d958025a60cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:26 +0000
Subject: [PATCH 55/93] fix: apply multipliers to time series with a single
 record

---
 Utilities/tsmultipliers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Utilities/tsmultipliers.py b/Utilities/tsmultipliers.py
index c3b4f7c..d780c30 100644
--- a/Utilities/tsmultipliers.py
+++ b/Utilities/tsmultipliers.py
@@ -63,8 +63,9 @@ def tsmultiply(inputFile, multipliers, outputFile):
     """
 
     log.info("Processing {0}".format(inputFile))
-    tsdata = np.genfromtxt(inputFile, dtype=INPUTFMT, names=INPUTNAMES,
-                           delimiter=',', skip_header=1)
+    tsdata = np.atleast_1d(np.genfromtxt(inputFile, dtype=INPUTFMT,
+                                         names=INPUTNAMES, delimiter=',',
+                                         skip_header=1))
     tstep = tsdata['Time']
     lon = tsdata['Longitude']
     lat = tsdata['Latitude']
-- 
2.43.0


From e0346caf1c6145fe9df7ffa5ddef3fe44c9b7f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:39 +0000
Subject: [PATCH 56/93] fix: check the output folder of low-resolution
 multipliers

---
 ProcessMultipliers/lowResProcessMultipliers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ProcessMultipliers/lowResProcessMultipliers.py b/ProcessMultipliers/lowResProcessMultipliers.py
index de253b9..086028b 100644
--- a/ProcessMultipliers/lowResProcessMultipliers.py
+++ b/ProcessMultipliers/lowResProcessMultipliers.py
@@ -29,7 +29,7 @@ def downscale_multipliers(src_file, match_file, dst_file, epsg=4326):
     if not os.path.isfile(match_file):
         raise FileNotFoundError(f"match_file: file {match_file} not found.")
     
-    if not os.path.path.isdir(os.path.split(dst_file)[0]):
+    if not os.path.isdir(os.path.split(dst_file)[0]):
         raise FileNotFoundError(f"dst_file: directory {os.path.split(dst_file)[0]} not found.")
 
     src = gdal.Open(src_file, gdal.GA_ReadOnly)
-- 
2.43.0


From 9d69bc22aacc2442ca9781a357cf08b3382cb28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:39 +0000
Subject: [PATCH 57/93] fix: align low-resolution multipliers with the gust
 grid

Gust files run from north to south, so the corner of the first cell is half a
cell north of its centre. The multipliers were taken one cell too far south.
---
 ProcessMultipliers/lowResProcessMultipliers.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ProcessMultipliers/lowResProcessMultipliers.py b/ProcessMultipliers/lowResProcessMultipliers.py
index 086028b..41ce878 100644
--- a/ProcessMultipliers/lowResProcessMultipliers.py
+++ b/ProcessMultipliers/lowResProcessMultipliers.py
@@ -38,13 +38,10 @@ def downscale_multipliers(src_file, match_file, dst_file, epsg=4326):
     ncobj = Dataset(match_file, 'r')
     lat = ncobj.variables['lat'][:]
     lon = ncobj.variables['lon'][:]
-    delta = lon[1] - lon[0]
-    lon = lon - delta / 2.
-    lat = lat - delta / 2.
-
     dx = lon[1] - lon[0]
     dy = lat[1] - lat[0]
-    originX, originY = lon[0], lat[0]
+    # Outer corner of the first cell, for either order of the latitudes
+    originX, originY = lon[0] - dx / 2., lat[0] - dy / 2.
 
     wide = len(lon)
     high = len(lat)
-- 
2.43.0


From d675d89500d248e148170d4259bf6ae0fb49fdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:39 +0000
Subject: [PATCH 58/93] fix: apply multipliers to northerly winds rounded to
 360 degrees

---
 ProcessMultipliers/lowResProcessMultipliers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ProcessMultipliers/lowResProcessMultipliers.py b/ProcessMultipliers/lowResProcessMultipliers.py
index 41ce878..8a943a6 100644
--- a/ProcessMultipliers/lowResProcessMultipliers.py
+++ b/ProcessMultipliers/lowResProcessMultipliers.py
@@ -163,7 +163,7 @@ class run():
             local = wind_data.copy()
 
             bearing = 2 * np.pi - (np.arctan2(-gust.va, -gust.ua) - np.pi / 2)
-            bearing = (180. / np.pi) * np.mod(bearing, 2. * np.pi)
+            bearing = np.mod((180. / np.pi) * np.mod(bearing, 2. * np.pi), 360.)
 
             for i in list(indices.keys()):
                 idx = np.where((bearing >= indices[i]['min']) & (bearing < indices[i]['max']))
-- 
2.43.0


From 43f342a28d2bb517b49dacc1d5bc48177bb9e91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:39 +0000
Subject: [PATCH 59/93] fix: write local gusts beside the gust file

The output name was made by replacing every "gust" in the path, so folders
with that word in their name were changed as well.
---
 ProcessMultipliers/lowResProcessMultipliers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ProcessMultipliers/lowResProcessMultipliers.py b/ProcessMultipliers/lowResProcessMultipliers.py
index 8a943a6..8c4d676 100644
--- a/ProcessMultipliers/lowResProcessMultipliers.py
+++ b/ProcessMultipliers/lowResProcessMultipliers.py
@@ -172,7 +172,7 @@ class run():
 
             outds = xr.Dataset()
             outds["vmax"] = local
-            outds.to_netcdf(gust_file.replace("gust", "wm_gust"))
+            outds.to_netcdf(pjoin(dirname(gust_file), "wm_" + os.path.basename(gust_file)))
 
 
 if __name__ == "__main__":
-- 
2.43.0


From c61d766a9fb355b567771a5e6bbaa6a781156ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:18:34 +0000
Subject: [PATCH 60/93] fix: interpolate tracks that have no wind speed

Tracks read from a TCRM track file have no maximum wind speed. It is now
estimated from the pressure, as intended, instead of stopping.
---
 Evaluate/interpolateTracks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Evaluate/interpolateTracks.py b/Evaluate/interpolateTracks.py
index afbae57..a685260 100644
--- a/Evaluate/interpolateTracks.py
+++ b/Evaluate/interpolateTracks.py
@@ -99,7 +99,9 @@ def interpolate(track, delta, interpolation_type=None):
     newdates = num2date(_newtime) 
     newdates = np.array([n.replace(tzinfo=None) for n in newdates])
 
-    if not hasattr(track, 'Speed'):
+    try:
+        track.WindSpeed
+    except (AttributeError, KeyError, ValueError):
         idx = np.zeros(len(track.data))
         idx[0] = 1
         # TODO: Possibly could change `np.mean(dt)` to `dt`?
-- 
2.43.0


From 64b316cb47752bce1c532fac266d3c8072e289e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:18:34 +0000
Subject: [PATCH 61/93] fix: keep the first record of tracks shorter than the
 time step

---
 Evaluate/interpolateTracks.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Evaluate/interpolateTracks.py b/Evaluate/interpolateTracks.py
index a685260..e16e29b 100644
--- a/Evaluate/interpolateTracks.py
+++ b/Evaluate/interpolateTracks.py
@@ -94,7 +94,10 @@ def interpolate(track, delta, interpolation_type=None):
     timestep = 24.0*(time_ - time_[0])
 
     newtime = np.arange(timestep[0], timestep[-1] + .01, delta)
-    newtime[-1] = timestep[-1]
+    if len(newtime) > 1:
+        newtime[-1] = timestep[-1]
+    else:
+        newtime = np.array([timestep[0], timestep[-1]])
     _newtime = (newtime / 24.) + time_[0] + date2num(np.datetime64('0000-12-31'))     #  Before Matplotlib 3.3, the epoch was 0000-12-31, later it changes to 1970-01-01 UTC 
     newdates = num2date(_newtime) 
     newdates = np.array([n.replace(tzinfo=None) for n in newdates])
@@ -111,9 +114,6 @@ def interpolate(track, delta, interpolation_type=None):
     # Find the indices of valid pressure observations:
     validIdx = np.where(track.CentralPressure < sys.maxsize)[0]
 
-    # FIXME: Need to address the issue when the time between obs is less
-    # than delta (e.g. only two obs 5 hrs apart, but delta = 6 hrs).
-
     if len(track.data) <= 3:
         # Use linear interpolation only (only a start and end point given):
         nLon = interp1d(timestep, track.Longitude, kind='linear')(newtime)
-- 
2.43.0


From b316af0d4bdd427e235419039d0f2aa3e0295ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:18:34 +0000
Subject: [PATCH 62/93] fix: interpolate the central pressure up to the last
 valid record

The pressure at the last time was that of the time before it. Valid records
that lie between two output times stopped the interpolation.
---
 Evaluate/interpolateTracks.py | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/Evaluate/interpolateTracks.py b/Evaluate/interpolateTracks.py
index e16e29b..0a8572e 100644
--- a/Evaluate/interpolateTracks.py
+++ b/Evaluate/interpolateTracks.py
@@ -164,33 +164,20 @@ def interpolate(track, delta, interpolation_type=None):
             nLat = splev(newtime, splrep(timestep, track.Latitude, s=0), der=0)
 
         if len(validIdx) >= 2:
-            # No valid data at the final new time,
-            # would require extrapolation:
+            # Only times between valid observations; others would
+            # require extrapolation:
             firsttime = np.where(newtime >= timestep[validIdx[0]])[0][0]
             lasttime = np.where(newtime <= timestep[validIdx[-1]])[0][-1]
 
-            if firsttime == lasttime:
-                # only one valid observation:
-                npCentre = np.zeros(len(newtime))
-                nwSpd = np.zeros(len(newtime))
-                npCentre[firsttime] = track.CentralPressure[validIdx[0]]
-                nwSpd[firsttime] = track.WindSpeed[validIdx[0]]
-
-            else:
-                npCentre = np.zeros(len(newtime))
-                nwSpd = np.zeros(len(newtime))
-                _npCentre = interp1d(timestep[validIdx],
-                                     track.CentralPressure[validIdx],
-                                     kind='linear')(newtime[firsttime:lasttime])
-
-                _nwSpd = interp1d(timestep[validIdx],
-                                  track.WindSpeed[validIdx],
-                                  kind='linear')(newtime[firsttime:lasttime])
-
-                npCentre[firsttime:lasttime] = _npCentre
-                nwSpd[firsttime:lasttime] = _nwSpd
-                npCentre[lasttime] = _npCentre[-1]
-                nwSpd[lasttime] = _nwSpd[-1]
+            npCentre = np.zeros(len(newtime))
+            nwSpd = np.zeros(len(newtime))
+            valid = slice(firsttime, lasttime + 1)
+            npCentre[valid] = interp1d(timestep[validIdx],
+                                       track.CentralPressure[validIdx],
+                                       kind='linear')(newtime[valid])
+            nwSpd[valid] = interp1d(timestep[validIdx],
+                                    track.WindSpeed[validIdx],
+                                    kind='linear')(newtime[valid])
 
         elif len(validIdx) == 1:
             npCentre = np.ones(len(newtime)) * track.CentralPressure[validIdx]
-- 
2.43.0


From de6118d03ff23321517a1163b963c019368e8adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:20:41 +0000
Subject: [PATCH 63/93] fix: round the dates of interpolated tracks to the
 nearest second

The dates came out microseconds short of the hour, so the hour and
minute columns named the minute before.
---
 Evaluate/interpolateTracks.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Evaluate/interpolateTracks.py b/Evaluate/interpolateTracks.py
index 0a8572e..e8fef5b 100644
--- a/Evaluate/interpolateTracks.py
+++ b/Evaluate/interpolateTracks.py
@@ -100,7 +100,10 @@ def interpolate(track, delta, interpolation_type=None):
         newtime = np.array([timestep[0], timestep[-1]])
     _newtime = (newtime / 24.) + time_[0] + date2num(np.datetime64('0000-12-31'))     #  Before Matplotlib 3.3, the epoch was 0000-12-31, later it changes to 1970-01-01 UTC 
     newdates = num2date(_newtime) 
-    newdates = np.array([n.replace(tzinfo=None) for n in newdates])
+    # Fractions of a day are not exact - round to the nearest second
+    newdates = np.array([(n.replace(tzinfo=None) +
+                          timedelta(seconds=0.5)).replace(microsecond=0)
+                         for n in newdates])
 
     try:
         track.WindSpeed
-- 
2.43.0


From 7f26cd21cc103061329e04916b3f24742f9e50f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:20:41 +0000
Subject: [PATCH 64/93] fix: use the length of the last time step for the
 forward speed

The last interpolated step can be shorter or longer than the requested
one, and the speed over it was wrong by the same factor.
---
 Evaluate/interpolateTracks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Evaluate/interpolateTracks.py b/Evaluate/interpolateTracks.py
index e8fef5b..3183ad5 100644
--- a/Evaluate/interpolateTracks.py
+++ b/Evaluate/interpolateTracks.py
@@ -200,7 +200,9 @@ def interpolate(track, delta, interpolation_type=None):
         dist = np.zeros(newtime.size, dtype=float)
         dist[:-1] = dist_
         dist[-1] = dist_[-1]
-        nvFm = dist / delta
+        # The last time step is not always delta long
+        step = np.diff(newtime)
+        nvFm = dist / np.append(step, step[-1])
 
     else:
         nvFm = track.Speed[-1]
-- 
2.43.0


From 79b0c39252df240b667830ce1d3dbb79b706e6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:24:34 +0000
Subject: [PATCH 65/93] fix: save tracks that do not all have the same columns

Tracks with a single record are not interpolated and keep their own
columns, so interpolated tracks could not be saved together with them.
---
 Utilities/track.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/Utilities/track.py b/Utilities/track.py
index b38d51f..271ed60 100644
--- a/Utilities/track.py
+++ b/Utilities/track.py
@@ -307,16 +307,15 @@ def ncSaveTracks(trackfile, tracks,
 
     tgroup = ncobj.createGroup('tracks')
 
-    # Fidget with the dtype to convert :class:`datetime` objects to floats:
-    track_dtype = np.dtype(tracks[0].data.dtype)
-    dtidx = track_dtype.names.index('Datetime')
-    track_dtype = track_dtype.descr
-    track_dtype[dtidx] = ('Datetime', 'f8')
-    track_dtype = np.dtype(track_dtype)
-
     for n, t in enumerate(tracks):
         if len(t.data) == 0: # Empty track
             continue
+        # Fidget with the dtype to convert :class:`datetime` objects to floats:
+        track_dtype = np.dtype(t.data.dtype)
+        dtidx = track_dtype.names.index('Datetime')
+        track_dtype = track_dtype.descr
+        track_dtype[dtidx] = ('Datetime', 'f8')
+        track_dtype = np.dtype(track_dtype)
         tname = "tracks-{:04d}".format(n)
         tdata = tgroup.createGroup(tname)
         tdtype = tdata.createCompoundType(track_dtype, 'track_dtype')
-- 
2.43.0


From 80862766a067f0d34843d19dcaebc54977986ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:38 +0000
Subject: [PATCH 66/93] fix: keep valid pressures next to missing ones in short
 tracks

For tracks of up to three records the code for a missing pressure was
interpolated as a number.  Treat all tracks the same way, and allow for
rounding when looking for the first and last valid time.
---
 Evaluate/interpolateTracks.py | 68 ++++++++++++-----------------------
 1 file changed, 23 insertions(+), 45 deletions(-)

diff --git a/Evaluate/interpolateTracks.py b/Evaluate/interpolateTracks.py
index 3183ad5..f3a7f5c 100644
--- a/Evaluate/interpolateTracks.py
+++ b/Evaluate/interpolateTracks.py
@@ -122,27 +122,6 @@ def interpolate(track, delta, interpolation_type=None):
         nLon = interp1d(timestep, track.Longitude, kind='linear')(newtime)
         nLat = interp1d(timestep, track.Latitude, kind='linear')(newtime)
 
-        if len(validIdx) >= 2:
-            npCentre = interp1d(timestep,
-                                track.CentralPressure,
-                                kind='linear')(newtime)
-            nwSpd = interp1d(timestep,
-                             track.WindSpeed,
-                             kind='linear')(newtime)
-
-        elif len(validIdx) == 1:
-            # If one valid observation, assume no change and
-            # apply value to all times
-            npCentre = np.ones(len(newtime)) * track.CentralPressure[validIdx]
-            nwSpd = np.ones(len(newtime)) * track.WindSpeed[validIdx]
-
-        else:
-            npCentre = np.zeros(len(newtime))
-            nwSpd = np.zeros(len(newtime))
-
-        npEnv = interp1d(timestep, track.EnvPressure, kind='linear')(newtime)
-        nrMax = interp1d(timestep, track.rMax, kind='linear')(newtime)
-
     else:
         if interpolation_type == 'akima':
             # Use the Akima interpolation method:
@@ -166,31 +145,30 @@ def interpolate(track, delta, interpolation_type=None):
             nLon = splev(newtime, splrep(timestep, track.Longitude, s=0), der=0)
             nLat = splev(newtime, splrep(timestep, track.Latitude, s=0), der=0)
 
-        if len(validIdx) >= 2:
-            # Only times between valid observations; others would
-            # require extrapolation:
-            firsttime = np.where(newtime >= timestep[validIdx[0]])[0][0]
-            lasttime = np.where(newtime <= timestep[validIdx[-1]])[0][-1]
-
-            npCentre = np.zeros(len(newtime))
-            nwSpd = np.zeros(len(newtime))
-            valid = slice(firsttime, lasttime + 1)
-            npCentre[valid] = interp1d(timestep[validIdx],
-                                       track.CentralPressure[validIdx],
-                                       kind='linear')(newtime[valid])
-            nwSpd[valid] = interp1d(timestep[validIdx],
-                                    track.WindSpeed[validIdx],
-                                    kind='linear')(newtime[valid])
-
-        elif len(validIdx) == 1:
-            npCentre = np.ones(len(newtime)) * track.CentralPressure[validIdx]
-            nwSpd = np.ones(len(newtime)) * track.WindSpeed[validIdx]
-        else:
-            npCentre = np.zeros(len(newtime))
-            nwSpd = np.zeros(len(newtime))
+    if len(validIdx) >= 2:
+        # Only times between valid observations (allowing for rounding
+        # of the times); others would require extrapolation:
+        valid = ((newtime >= timestep[validIdx[0]] - 1.e-4) &
+                 (newtime <= timestep[validIdx[-1]] + 1.e-4))
+        npCentre = np.zeros(len(newtime))
+        nwSpd = np.zeros(len(newtime))
+        npCentre[valid] = np.interp(newtime[valid], timestep[validIdx],
+                                    track.CentralPressure[validIdx])
+        nwSpd[valid] = np.interp(newtime[valid], timestep[validIdx],
+                                 track.WindSpeed[validIdx])
+
+    elif len(validIdx) == 1:
+        # If one valid observation, assume no change and
+        # apply value to all times
+        npCentre = np.ones(len(newtime)) * track.CentralPressure[validIdx]
+        nwSpd = np.ones(len(newtime)) * track.WindSpeed[validIdx]
+
+    else:
+        npCentre = np.zeros(len(newtime))
+        nwSpd = np.zeros(len(newtime))
 
-        npEnv = interp1d(timestep, track.EnvPressure, kind='linear')(newtime)
-        nrMax = interp1d(timestep, track.rMax, kind='linear')(newtime)
+    npEnv = interp1d(timestep, track.EnvPressure, kind='linear')(newtime)
+    nrMax = interp1d(timestep, track.rMax, kind='linear')(newtime)
 
     if len(nLat) >= 2:
         bear_, dist_ = latLon2Azi(nLat, nLon, 1, azimuth=0)
-- 
2.43.0


From 1f722a8258db1966e487db715a1cba80e4d3f656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:35 +0000
Subject: [PATCH 67/93] fix: create netCDF variables from arrays

Passing an array of values raised an error because the truth value of
an array is ambiguous.
---
 Utilities/nctools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/nctools.py b/Utilities/nctools.py
index bb68bbc..566b9fd 100644
--- a/Utilities/nctools.py
+++ b/Utilities/nctools.py
@@ -244,7 +244,7 @@ def ncCreateVar(ncobj, name, dimensions, dtype, data=None, atts=None, **kwargs):
 
     var = ncobj.createVariable(name, dtype, dimensions, **kwargs)
 
-    if data:
+    if data is not None:
         var[:] = np.array(data, dtype=dtype)
 
     if atts:
-- 
2.43.0


From 81b3546d0a0e7d51ec640f5d26542008d127600c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:35 +0000
Subject: [PATCH 68/93] fix: do not change the attributes passed to ncSaveGrid

The time stamp and user name were added to the dictionary of the caller,
and None, which the documentation allows, raised an error.
---
 Utilities/nctools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Utilities/nctools.py b/Utilities/nctools.py
index 566b9fd..5710761 100644
--- a/Utilities/nctools.py
+++ b/Utilities/nctools.py
@@ -378,7 +378,8 @@ def ncSaveGrid(filename, dimensions, variables, nodata=-9999,
 
         var.setncatts(v['atts'])
 
-    # Additional global attributes:
+    # Additional global attributes (leave the caller's dict as it is):
+    gatts = dict(gatts or {})
     gatts['created_on'] = time.strftime(ISO_FORMAT, time.localtime())
     gatts['created_by'] = getpass.getuser()
     gatts['Conventions'] = 'CF-1.6'
-- 
2.43.0


From 15fc373ac0ddc99fe66cde340797455a49a2adbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:35 +0000
Subject: [PATCH 69/93] fix: keep masked values missing when saving a grid

The mask of the values was dropped, so the numbers below it were saved
as data.
---
 Utilities/nctools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/nctools.py b/Utilities/nctools.py
index 5710761..2d50ad0 100644
--- a/Utilities/nctools.py
+++ b/Utilities/nctools.py
@@ -374,7 +374,7 @@ def ncSaveGrid(filename, dimensions, variables, nodata=-9999,
                                    fill_value=nodata)
 
         if (writedata and v['values'] is not None):
-            var[:] = np.array(v['values'], dtype=v['dtype'])
+            var[:] = np.ma.array(v['values'], dtype=v['dtype'])
 
         var.setncatts(v['atts'])
 
-- 
2.43.0


From 585349bf65f80c636431473ce5102611c69d7d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:35 +0000
Subject: [PATCH 70/93] fix: save ascii grids to existing files and file
 handles

Overwriting a file used a function that Python 3 does not have, and a
file handle was treated as a path.
---
 Utilities/grid.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Utilities/grid.py b/Utilities/grid.py
index afe3e4d..e600c60 100644
--- a/Utilities/grid.py
+++ b/Utilities/grid.py
@@ -63,14 +63,14 @@ def grdSave(filename, data, lon, lat, delta, delimiter=' ', nodata=-9999,
                  nodata=-9999, fmt='%.10e, coords='latlon')
     """
 
-    if filename and os.path.isfile(filename):
+    if hasattr(filename, 'seek'):
+        fh = filename
+    elif filename and os.path.isfile(filename):
         if filename.endswith('.gz'):
             import gzip
-            fh = gzip.open(filename, 'wb')
+            fh = gzip.open(filename, 'wt')
         else:
-            fh = file(filename, 'w')
-    elif hasattr(filename, 'seek'):
-        fh = filename
+            fh = open(filename, 'w')
     else:
         try:
             fh = open(filename, 'w')
-- 
2.43.0


From f028cc383e448601bfa0ea5da05fdefa8f8dd718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:35 +0000
Subject: [PATCH 71/93] fix: save tables to a file name without a directory

An empty directory name was passed on to be created.
---
 Utilities/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utilities/files.py b/Utilities/files.py
index a58f7f8..0438782 100644
--- a/Utilities/files.py
+++ b/Utilities/files.py
@@ -107,7 +107,7 @@ def flSaveFile(filename, data, header='', delimiter=',', fmt='%.18e'):
     """
 
     directory, fname = os.path.split(filename)
-    if not os.path.isdir(directory):
+    if directory and not os.path.isdir(directory):
         os.makedirs(directory)
 
     try:
-- 
2.43.0


From 610e96b97375105e7456dcfaa8ceb14fb39e4b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:41:45 +0000
Subject: [PATCH 72/93] fix: apply the Hubbert asymmetry in the direction of
 rotation

The forward speed was subtracted on the side of maximum winds in the northern hemisphere, because its sign did not follow the sign of the circulation.
---
 wind/windmodels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wind/windmodels.py b/wind/windmodels.py
index c275928..89d9595 100644
--- a/wind/windmodels.py
+++ b/wind/windmodels.py
@@ -987,7 +987,7 @@ class HubbertWindField(WindFieldModel):
         inflow = inflow * np.pi / 180
 
         thetaMaxAbsolute = np.array(thetaFm) + thetaMax * np.pi/180.
-        asym = vFm * np.cos(thetaMaxAbsolute - lam + np.pi)
+        asym = np.sign(self.f) * vFm * np.cos(thetaMaxAbsolute - lam)
         Vsf = Km * V + asym
         phi = inflow - lam
 
-- 
2.43.0


From b8c7f8d9d777c8798d8043ca1dc532826d519657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:42:01 +0000
Subject: [PATCH 73/93] fix: accept every documented wind profile

The jelesnianski and doubleHolland profiles stopped with an error when the pressure field was calculated. Profiles without a pressure profile of their own use the Holland pressure profile.
---
 wind/__init__.py   | 13 +++++++++----
 wind/windmodels.py |  4 ++--
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index 2219642..01c58de 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -161,11 +161,16 @@ class WindfieldAroundTrack(object):
                             self.track.Longitude[i],
                             self.beta, beta1=self.beta1,
                             beta2=self.beta2)
+        profiles = {'holland': p.holland, 'willoughby': p.willoughby,
+                    'schloemer': p.schloemer, 'powell': p.powell,
+                    'doubleholland': p.doubleHolland}
         try:
-            pressure = getattr(p, self.profileType)
-        except AttributeError:
-            msg = '%s not implemented in pressureProfile' % self.profileType
-            log.exception(msg)
+            pressure = profiles[self.profileType.lower()]
+        except KeyError:
+            # Profiles defined by the wind speed only
+            log.debug('%s not implemented in pressureProfile, using holland',
+                      self.profileType)
+            pressure = p.holland
         return pressure()
 
     def localWindField(self, i):
diff --git a/wind/windmodels.py b/wind/windmodels.py
index 89d9595..ef97ae9 100644
--- a/wind/windmodels.py
+++ b/wind/windmodels.py
@@ -1181,7 +1181,7 @@ def profile(name):
     Helper function to return the appropriate wind profile
     model given a `name`.
     """
-    return PROFILES[name]
+    return PROFILES[name.lower()]
 
 
 def profileParams(name):
@@ -1200,7 +1200,7 @@ def field(name):
     Helper function to return the appropriate wind field
     model given a `name`.
     """
-    return FIELDS[name]
+    return FIELDS[name.lower()]
 
 
 def fieldParams(name):
-- 
2.43.0


From edc76ef724716a80e9c0176e9518f4524d0e7b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:42:01 +0000
Subject: [PATCH 74/93] fix: give the default gale radius of the newHolland
 profile in metres

The default was in kilometres, while the profile is evaluated in metres, and gave winds of many thousand metres per second.
---
 wind/windmodels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wind/windmodels.py b/wind/windmodels.py
index ef97ae9..19fd503 100644
--- a/wind/windmodels.py
+++ b/wind/windmodels.py
@@ -835,11 +835,11 @@ class NewHollandWindProfile(WindProfileModel):
     :param float eP: environmental pressure (hPa).
     :param float cP: centrral pressure of the TC (hPa).
     :param float rMax: Radius to maximum wind (km).
-    :param float rGale: Radius of gale force winds (default=150 km).
+    :param float rGale: Radius of gale force winds (m, default=150 km).
 
     """
 
-    def __init__(self, lat, lon, eP, cP, rMax, rGale=150.):
+    def __init__(self, lat, lon, eP, cP, rMax, rGale=150.e3):
         WindProfileModel.__init__(self, lat, lon, eP, cP, rMax,
                                   windSpeedModel=HollandWindSpeed)
         self.rGale = rGale
-- 
2.43.0


From be5d5d131410e1788a9fde909835119212718171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:59:18 +0000
Subject: [PATCH 75/93] fix: distribute track files to workers in the
 evaluation modules

The evaluation modules called the buffer methods Send and Recv of mpi4py
with Python objects, used an undefined name and a non-callable size, and
indexed past the list of files when there were more processes than files.
Results are now stored by file rather than in order of arrival.
---
 Evaluate/genesisDensity.py       | 38 +++++++++++++++------------
 Evaluate/landfallRates.py        | 34 ++++++++++++++----------
 Evaluate/longitudeCrossing.py    | 34 ++++++++++++++----------
 Evaluate/pressureDistribution.py | 44 +++++++++++++++++++-------------
 Evaluate/trackDensity.py         | 38 +++++++++++++++------------
 5 files changed, 110 insertions(+), 78 deletions(-)

diff --git a/Evaluate/genesisDensity.py b/Evaluate/genesisDensity.py
index 25ec56d..da31f8f 100755
--- a/Evaluate/genesisDensity.py
+++ b/Evaluate/genesisDensity.py
@@ -253,53 +253,59 @@ class GenesisDensity(object):
         """Load synthetic data and calculate histogram"""
 
         filelist = os.listdir(self.trackPath)
-        trackfiles = [pjoin(self.trackPath, f) for f in filelist
-                      if f.startswith('tracks')]
+        trackfiles = sorted([pjoin(self.trackPath, f) for f in filelist
+                             if f.startswith('tracks')])
         self.synHist = -9999. * np.ones((len(trackfiles),
                                          len(self.lon_range),
                                          len(self.lat_range)))
 
+        status = MPI.Status()
         work_tag = 0
         result_tag = 1
 
         if (comm.rank == 0) and (comm.size > 1):
             w = 0
-            n = 0
+            p = comm.size - 1
             for d in range(1, comm.size):
-                comm.Send(trackfiles[w], dest=d, tag=work_tag)
-                log.debug("Processing track file {0:d} of {1:d}".\
-                          format(w, len(trackfiles)))
-                w += 1
+                if w < len(trackfiles):
+                    comm.send((w, trackfiles[w]), dest=d, tag=work_tag)
+                    log.debug("Processing track file {0:d} of {1:d}".\
+                              format(w, len(trackfiles)))
+                    w += 1
+                else:
+                    comm.send(None, dest=d, tag=work_tag)
+                    p = w
 
             terminated = 0
-            while terminated < comm.size - 1:
-                results, status = comm.Recv(MPI.ANY_SOURCE, tag=result_tag,
-                                             status=True)
+            while terminated < p:
+                n, results = comm.recv(source=MPI.ANY_SOURCE,
+                                       tag=result_tag, status=status)
                 self.synHist[n, :, :] = results
-                n += 1
 
                 d = status.source
                 if w < len(trackfiles):
-                    comm.Send(trackfiles[w], dest=d, tag=work_tag)
+                    comm.send((w, trackfiles[w]), dest=d, tag=work_tag)
                     log.debug("Processing track file {0:d} of {1:d}".\
                               format(w, len(trackfiles)))
                     w += 1
                 else:
-                    comm.Send(None, dest=d, tag=work_tag)
+                    comm.send(None, dest=d, tag=work_tag)
                     terminated += 1
 
             self.calculateMeans()
 
         elif (comm.size > 1) and (comm.rank != 0):
             while True:
-                trackfile = comm.Recv(source=0, tag=work_tag)
-                if trackfile is None:
+                work = comm.recv(source=0, tag=work_tag, status=status)
+                if work is None:
                     break
 
+                n, trackfile = work
+
                 log.debug("Processing {0}".format(trackfile))
                 tracks = loadTracks(trackfile)
                 results = self._calculate(tracks) #/ self.synNumYears
-                comm.Send(results, dest=0, tag=result_tag)
+                comm.send((n, results), dest=0, tag=result_tag)
 
         elif (comm.size == 1) and (comm.rank == 0):
             for n, trackfile in enumerate(trackfiles):
diff --git a/Evaluate/landfallRates.py b/Evaluate/landfallRates.py
index 2d41ef9..d42a3b0 100644
--- a/Evaluate/landfallRates.py
+++ b/Evaluate/landfallRates.py
@@ -200,6 +200,7 @@ class LandfallRates(object):
         """Load synthetic data and calculate histogram"""
         LOG.info("Processing landfall rates of synthetic events")
 
+        status = MPI.Status()
         work_tag = 0
         result_tag = 1
         filelist = os.listdir(self.trackPath)
@@ -211,44 +212,49 @@ class LandfallRates(object):
         if (comm.rank == 0) and (comm.size > 1):
 
             w = 0
-            n = 0
+            p = comm.size - 1
             for d in range(1, comm.size):
-                comm.Send(trackfiles[w], dest=d, tag=work_tag)
-                LOG.debug("Processing track file {0:d} of {1:d}".\
-                          format(w + 1, len(trackfiles)))
-                w += 1
+                if w < len(trackfiles):
+                    comm.send((w, trackfiles[w]), dest=d, tag=work_tag)
+                    LOG.debug("Processing track file {0:d} of {1:d}".\
+                              format(w + 1, len(trackfiles)))
+                    w += 1
+                else:
+                    comm.send(None, dest=d, tag=work_tag)
+                    p = w
 
             terminated = 0
-            while terminated < comm.size() - 1:
-                results, status = comm.Recv(MPI.ANY_SOURCE, tag=result_tag,
-                                             status=True)
+            while terminated < p:
+                n, results = comm.recv(source=MPI.ANY_SOURCE,
+                                       tag=result_tag, status=status)
 
                 self.processResults(results, n)
-                n += 1
 
                 d = status.source
 
                 if w < len(trackfiles):
-                    comm.Send(trackfiles[w], dest=d, tag=work_tag)
+                    comm.send((w, trackfiles[w]), dest=d, tag=work_tag)
                     LOG.debug("Processing track file {0:d} of {1:d}".\
                               format(w + 1, len(trackfiles)))
                     w += 1
                 else:
-                    comm.Send(None, dest=d, tag=work_tag)
+                    comm.send(None, dest=d, tag=work_tag)
                     terminated += 1
 
             self.calculateStats()
 
         elif (comm.size > 1) and (comm.rank != 0):
             while True:
-                trackfile = comm.Recv(source=0, tag=work_tag)
-                if trackfile is None:
+                work = comm.recv(source=0, tag=work_tag, status=status)
+                if work is None:
                     break
 
+                n, trackfile = work
+
                 LOG.debug("Processing %s", trackfile)
                 tracks = loadTracks(trackfile)
                 results = self.processTracks(tracks)
-                comm.Send(results, dest=0, tag=result_tag)
+                comm.send((n, results), dest=0, tag=result_tag)
 
         elif comm.size == 1 and comm.rank == 0:
             # Assumed no Pypar - helps avoid the need to extend DummyPypar()
diff --git a/Evaluate/longitudeCrossing.py b/Evaluate/longitudeCrossing.py
index 6a60fde..c12c188 100644
--- a/Evaluate/longitudeCrossing.py
+++ b/Evaluate/longitudeCrossing.py
@@ -209,6 +209,7 @@ class LongitudeCrossing(object):
 
         LOG.info("Processing synthetic rates of longitude crossing")
 
+        status = MPI.Status()
         work_tag = 0
         result_tag = 1
         filelist = os.listdir(self.trackPath)
@@ -228,46 +229,51 @@ class LongitudeCrossing(object):
         if (comm.rank == 0) and (comm.size > 1):
 
             w = 0
-            n = 0
+            p = comm.size - 1
             for d in range(1, comm.size):
-                comm.Send(trackfiles[w], dest=d, tag=work_tag)
-                LOG.debug("Processing track file {0:d} of {1:d}".\
-                          format(w + 1, len(trackfiles)))
-                w += 1
+                if w < len(trackfiles):
+                    comm.send((w, trackfiles[w]), dest=d, tag=work_tag)
+                    LOG.debug("Processing track file {0:d} of {1:d}".\
+                              format(w + 1, len(trackfiles)))
+                    w += 1
+                else:
+                    comm.send(None, dest=d, tag=work_tag)
+                    p = w
 
             terminated = 0
-            while terminated < comm.size - 1:
-                results, status = comm.Recv(MPI.ANY_SOURCE, tag=result_tag,
-                                               status=None)
+            while terminated < p:
+                n, results = comm.recv(source=MPI.ANY_SOURCE,
+                                       tag=result_tag, status=status)
 
                 lonCrossHist[n, :, :], lonCrossEW[n, :, :], \
                     lonCrossWE[n, :, :] = results
-                n += 1
 
                 d = status.source
 
                 if w < len(trackfiles):
-                    comm.Send(trackfiles[w], dest=d, tag=work_tag)
+                    comm.send((w, trackfiles[w]), dest=d, tag=work_tag)
                     LOG.debug("Processing track file {0:d} of {1:d}".\
                               format(w + 1, len(trackfiles)))
                     w += 1
                 else:
-                    comm.Send(None, dest=d, tag=work_tag)
+                    comm.send(None, dest=d, tag=work_tag)
                     terminated += 1
 
             self.calcStats(lonCrossHist, lonCrossEW, lonCrossWE)
 
         elif (comm.size > 1) and (comm.rank != 0):
             while True:
-                trackfile = comm.Recv(source=0, tag=work_tag)
-                if trackfile is None:
+                work = comm.recv(source=0, tag=work_tag, status=status)
+                if work is None:
                     break
 
+                n, trackfile = work
+
                 LOG.debug("Processing {0}".format(trackfile))
                 tracks = loadTracks(trackfile)
                 lonCross, lonCrossEW, lonCrossWE = self.findCrossings(tracks)
                 results = (lonCross, lonCrossEW, lonCrossWE)
-                comm.Send(results, dest=0, tag=result_tag)
+                comm.send((n, results), dest=0, tag=result_tag)
 
         elif (comm.size == 1) and (comm.rank == 0):
             # Assumed no Pypar - helps avoid the need to extend DummyPypar()
diff --git a/Evaluate/pressureDistribution.py b/Evaluate/pressureDistribution.py
index 2687230..9e74c77 100644
--- a/Evaluate/pressureDistribution.py
+++ b/Evaluate/pressureDistribution.py
@@ -234,6 +234,7 @@ class PressureDistribution(object):
         """Load synthetic data and calculate histogram"""
         log.info("Processing synthetic pressure distributions")
 
+        status = MPI.Status()
         work_tag = 0
         result_tag = 1
         filelist = os.listdir(self.trackPath)
@@ -254,21 +255,25 @@ class PressureDistribution(object):
 
         bins = np.arange(850., 1020., 5.)
         synMinCPDist = np.empty((len(trackfiles), len(bins) - 1))
-        self.synMinCP = np.array([])
+        synMinCP = [np.array([])] * len(trackfiles)
         if (comm.rank == 0) and (comm.size > 1):
 
             w = 0
-            n = 0
+            p = comm.size - 1
             for d in range(1, comm.size):
-                comm.Send(trackfiles[w], dest=d, tag=work_tag)
-                log.debug("Processing track file {0:d} of {1:d}".
-                          format(w + 1, len(trackfiles)))
-                w += 1
+                if w < len(trackfiles):
+                    comm.send((w, trackfiles[w]), dest=d, tag=work_tag)
+                    log.debug("Processing track file {0:d} of {1:d}".
+                              format(w + 1, len(trackfiles)))
+                    w += 1
+                else:
+                    comm.send(None, dest=d, tag=work_tag)
+                    p = w
 
             terminated = 0
-            while terminated < comm.size - 1:
-                results, status = comm.Recv(MPI.ANY_SOURCE, tag=result_tag,
-                                            status=None)
+            while terminated < p:
+                n, results = comm.recv(source=MPI.ANY_SOURCE,
+                                       tag=result_tag, status=status)
 
                 sMean, sMin, sMax, sMed, sMinCPDist, sMinCP = results
                 synMean[n, :, :] = sMean
@@ -276,34 +281,36 @@ class PressureDistribution(object):
                 synMax[n, :, :] = sMax
                 synMed[n, :, :] = sMed
                 synMinCPDist[n, :] = sMinCPDist
-                self.synMinCP = np.append(self.synMinCP, sMinCP)
-                n += 1
+                synMinCP[n] = sMinCP
 
                 d = status.source
 
                 if w < len(trackfiles):
-                    comn.Send(trackfiles[w], dest=d, tag=work_tag)
+                    comm.send((w, trackfiles[w]), dest=d, tag=work_tag)
                     log.debug("Processing track file {0:d} of {1:d}".
                               format(w + 1, len(trackfiles)))
                     w += 1
                 else:
-                    comm.Send(None, dest=d, tag=work_tag)
+                    comm.send(None, dest=d, tag=work_tag)
                     terminated += 1
 
+            self.synMinCP = np.concatenate(synMinCP)
             self.calculateMeans(synMean, synMin, synMed, synMax, synMinCPDist)
 
         elif (comm.size > 1) and (comm.rank != 0):
             while True:
-                trackfile = comm.Recv(source=0, tag=work_tag)
-                if trackfile is None:
+                work = comm.recv(source=0, tag=work_tag, status=status)
+                if work is None:
                     break
 
+                n, trackfile = work
+
                 log.debug("Processing {0}".format(trackfile))
                 tracks = loadTracks(trackfile)
                 sMean, sMin, sMax, sMed = self.calculate(tracks)
                 sMinCPDist, sMinCP = self.calcMinPressure(tracks)
                 results = (sMean, sMin, sMax, sMed, sMinCPDist, sMinCP)
-                comm.Send(results, dest=0, tag=result_tag)
+                comm.send((n, results), dest=0, tag=result_tag)
 
         elif comm.size == 1 and comm.rank == 0:
             # Assumed no Pypar - helps avoid the need to extend DummyPypar()
@@ -311,8 +318,9 @@ class PressureDistribution(object):
                 tracks = loadTracks(trackfile)
                 synMean[n, :, :], synMin[n, :, :], \
                     synMax[n, :, :], synMed[n, :, :] = self.calculate(tracks)
-                synMinCPDist[n, :], sMinCP = self.calcMinPressure(tracks)
-                self.synMinCP = np.append(self.synMinCP, sMinCP)
+                synMinCPDist[n, :], synMinCP[n] = self.calcMinPressure(tracks)
+
+            self.synMinCP = np.concatenate(synMinCP)
             self.calculateMeans(synMean, synMin, synMed, synMax, synMinCPDist)
 
     @disableOnWorkers
diff --git a/Evaluate/trackDensity.py b/Evaluate/trackDensity.py
index e36163e..01acd1c 100644
--- a/Evaluate/trackDensity.py
+++ b/Evaluate/trackDensity.py
@@ -157,53 +157,59 @@ class TrackDensity(object):
         """Load synthetic data and calculate histogram"""
 
         filelist = os.listdir(self.trackPath)
-        trackfiles = [pjoin(self.trackPath, f) for f in filelist
-                      if f.startswith('tracks')]
+        trackfiles = sorted([pjoin(self.trackPath, f) for f in filelist
+                             if f.startswith('tracks')])
         self.synHist = -9999. * np.ones((len(trackfiles),
                                          len(self.lon_range)-1,
                                          len(self.lat_range)-1))
 
+        status = MPI.Status()
         work_tag = 0
         result_tag = 1
 
         if (comm.rank == 0) and (comm.size > 1):
             w = 0
-            n = 0
+            p = comm.size - 1
             for d in range(1, comm.size):
-                comm.Send(trackfiles[w], dest=d, tag=work_tag)
-                log.debug("Processing track file {0:d} of {1:d}".\
-                              format(w, len(trackfiles)))
-                w += 1
+                if w < len(trackfiles):
+                    comm.send((w, trackfiles[w]), dest=d, tag=work_tag)
+                    log.debug("Processing track file {0:d} of {1:d}".\
+                                  format(w, len(trackfiles)))
+                    w += 1
+                else:
+                    comm.send(None, dest=d, tag=work_tag)
+                    p = w
 
             terminated = 0
-            while (terminated < comm.size - 1):
-                results, status = comm.Recv(MPI.ANY_SOURCE, tag=result_tag,
-                                            status=True)
+            while terminated < p:
+                n, results = comm.recv(source=MPI.ANY_SOURCE,
+                                       tag=result_tag, status=status)
                 self.synHist[n, :, :] = results
-                n += 1
 
                 d = status.source
                 if w < len(trackfiles):
-                    comm.Send(trackfiles[w], dest=d, tag=work_tag)
+                    comm.send((w, trackfiles[w]), dest=d, tag=work_tag)
                     log.debug("Processing track file {0:d} of {1:d}".\
                               format(w, len(trackfiles)))
                     w += 1
                 else:
-                    comm.Send(None, dest=d, tag=work_tag)
+                    comm.send(None, dest=d, tag=work_tag)
                     terminated += 1
 
             self.calculateMeans()
 
         elif (comm.size > 1) and (comm.rank != 0):
             while(True):
-                trackfile = comm.Recv(source=0, tag=work_tag)
-                if trackfile is None:
+                work = comm.recv(source=0, tag=work_tag, status=status)
+                if work is None:
                     break
 
+                n, trackfile = work
+
                 log.debug("Processing %s" % (trackfile))
                 tracks = loadTracks(trackfile)
                 results = self.calculate(tracks) / self.synNumYears
-                comm.Send(results, dest=0, tag=result_tag)
+                comm.send((n, results), dest=0, tag=result_tag)
 
         elif (comm.size == 1) and (comm.rank == 0):
             for n, trackfile in enumerate(trackfiles):
-- 
2.43.0


From fecd691ff97cfe80a7f62607dc4f7c05b24aeec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:59:18 +0000
Subject: [PATCH 76/93] fix: let every process take part in interpolating
 historical tracks

Interpolation of the historical tracks ends with a barrier, so calling it
on the master alone left all processes waiting for each other.
---
 Evaluate/longitudeCrossing.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Evaluate/longitudeCrossing.py b/Evaluate/longitudeCrossing.py
index c12c188..879dac1 100644
--- a/Evaluate/longitudeCrossing.py
+++ b/Evaluate/longitudeCrossing.py
@@ -173,7 +173,6 @@ class LongitudeCrossing(object):
 
 
 
-    @disableOnWorkers
     def historic(self):
         """Calculate historical rates of longitude crossing"""
 
-- 
2.43.0


From ee169fab08b240ed977ae37ba94c6f27609a98fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:59:18 +0000
Subject: [PATCH 77/93] fix: count downward crossings in the winding number of
 a polygon

Downward crossings were only looked for on edges that start below the
point, where there are none, so points inside clockwise polygons could be
reported as outside.
---
 Utilities/Intersections.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Utilities/Intersections.py b/Utilities/Intersections.py
index 3b01b8c..98a6e37 100644
--- a/Utilities/Intersections.py
+++ b/Utilities/Intersections.py
@@ -99,9 +99,9 @@ def _wnPnPoly(P, V):
             if V[i + 1].y > P.y:      # an upward crossing
                 if _isLeft(V[i], V[i + 1], P) > 0:  # P left of edge
                     wn += 1            # have a valid up intersect
-            elif V[i + 1].y <= P.y:     # a downward crossing
-                if _isLeft(V[i], V[i + 1], P) < 0:  # P right of edge
-                    wn -= 1            # have a valid down intersect
+        elif V[i + 1].y <= P.y:     # start y > P.y, a downward crossing
+            if _isLeft(V[i], V[i + 1], P) < 0:  # P right of edge
+                wn -= 1            # have a valid down intersect
     return wn != 0
 
 
-- 
2.43.0


From 95dcf18166759172c8ee5b767e3475350a90eeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:59:18 +0000
Subject: [PATCH 78/93] fix: count crossings of the last gate, and each in its
 own bin

Gate j lies between vertices j and j + 1. The last gate was never tested
and the others were counted one bin too high.
---
 Evaluate/landfallRates.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Evaluate/landfallRates.py b/Evaluate/landfallRates.py
index d42a3b0..1268f80 100644
--- a/Evaluate/landfallRates.py
+++ b/Evaluate/landfallRates.py
@@ -107,22 +107,22 @@ class LandfallRates(object):
                 if not startOnshore and endOnshore:
                     # Landfall:
                     cross = Int.Crossings()
-                    for j in range(1, len(self.gates) - 1):
+                    for j in range(1, len(self.gates)):
                         r = cross.LineLine(start, end,
                                            self.gates[j-1],
                                            self.gates[j])
                         if r.status == "Intersection":
-                            landfall.append(j)
+                            landfall.append(j - 1)
 
                 elif startOnshore and not endOnshore:
                     # Moving offshore:
                     cross = Int.Crossings()
-                    for j in range(1, len(self.gates) - 1):
+                    for j in range(1, len(self.gates)):
                         r = cross.LineLine(start, end,
                                            self.gates[j - 1],
                                            self.gates[j])
                         if r.status == "Intersection":
-                            offshore.append(j)
+                            offshore.append(j - 1)
 
         # Generate the histograms to be returned:
         lh, n = np.histogram(landfall, np.arange(len(self.gates)), density=True)
-- 
2.43.0


From 0d95a9e56f0d73d33a71880439336b213eea2ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:59:18 +0000
Subject: [PATCH 79/93] fix: give zero rates for track files with nothing to
 count

A file without any landfall, or without a track that starts in the region,
gave a histogram of NaN and made the statistics over all files NaN.
---
 Evaluate/landfallRates.py        | 10 ++++++++--
 Evaluate/pressureDistribution.py |  4 +++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/Evaluate/landfallRates.py b/Evaluate/landfallRates.py
index 1268f80..73a08df 100644
--- a/Evaluate/landfallRates.py
+++ b/Evaluate/landfallRates.py
@@ -125,8 +125,14 @@ class LandfallRates(object):
                             offshore.append(j - 1)
 
         # Generate the histograms to be returned:
-        lh, n = np.histogram(landfall, np.arange(len(self.gates)), density=True)
-        oh, n = np.histogram(offshore, np.arange(len(self.gates)), density=True)
+        lh = np.zeros(len(self.gates) - 1)
+        oh = np.zeros(len(self.gates) - 1)
+        if len(landfall) > 0:
+            lh, n = np.histogram(landfall, np.arange(len(self.gates)),
+                                 density=True)
+        if len(offshore) > 0:
+            oh, n = np.histogram(offshore, np.arange(len(self.gates)),
+                                 density=True)
         return lh, oh
 
     def processResults(self, results, index):
diff --git a/Evaluate/pressureDistribution.py b/Evaluate/pressureDistribution.py
index 9e74c77..3b19239 100644
--- a/Evaluate/pressureDistribution.py
+++ b/Evaluate/pressureDistribution.py
@@ -170,7 +170,9 @@ class PressureDistribution(object):
                 minCP[i] = t.CentralPressure.min()
 
         bins = np.arange(850., 1020., 5.)
-        h, n = np.histogram(minCP, bins, density=True)
+        h, n = np.histogram(minCP, bins)
+        if h.sum() > 0:
+            h = h / (h.sum() * np.diff(bins))
         return h, minCP
 
     def calculateMeans(self, synMean, synMin, synMed, synMax, synMinCP):
-- 
2.43.0


From c6bb9d6928b6d0dfd57b0bb44720450f8e266dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:59:42 +0000
Subject: [PATCH 80/93] fix: count a crossing once if a track point lies on the
 longitude

Both the segment that ends on the gate and the segment that starts from it
were counted as a crossing.
---
 Evaluate/longitudeCrossing.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Evaluate/longitudeCrossing.py b/Evaluate/longitudeCrossing.py
index 879dac1..45c7e15 100644
--- a/Evaluate/longitudeCrossing.py
+++ b/Evaluate/longitudeCrossing.py
@@ -127,15 +127,16 @@ class LongitudeCrossing(object):
                     end = Int.Point(t.Longitude[i + 1], t.Latitude[i + 1])
                     r = cross.LineLine(start, end, gStart, gEnd)
                     if r.status == "Intersection":
-                        lats.append(r.points[0].y)
                         startSide = Int._isLeft(gStart, gEnd, start)
                         endSide = Int._isLeft(gStart, gEnd, end)
-                        if ((startSide < 0.) and (endSide >= 0.)) \
-                                or ((startSide <= 0.) and (endSide > 0.)):
+                        # Points on the gate belong to its eastern side,
+                        # so each crossing is counted once only
+                        if (startSide < 0.) and (endSide >= 0.):
+                            lats.append(r.points[0].y)
                             welats.append(r.points[0].y)
 
-                        elif ((startSide > 0.) and (endSide <= 0.)) \
-                                or ((startSide >= 0.) and (endSide < 0.)):
+                        elif (startSide >= 0.) and (endSide < 0.):
+                            lats.append(r.points[0].y)
                             ewlats.append(r.points[0].y)
 
                     else:
-- 
2.43.0


From 08fa7733cdc29f9efb9cc99aca5f57832e86326c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:59:43 +0000
Subject: [PATCH 81/93] fix: include the last year in the length of the
 historical record

The record from 1981 to 1981 is one year long, not zero: the track density
of a record of one year was infinite.
---
 Evaluate/trackDensity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Evaluate/trackDensity.py b/Evaluate/trackDensity.py
index 01acd1c..8fae876 100644
--- a/Evaluate/trackDensity.py
+++ b/Evaluate/trackDensity.py
@@ -149,7 +149,7 @@ class TrackDensity(object):
             for t in tracks:
                 startYr = min(startYr, min(t.Year))
                 endYr = max(endYr, max(t.Year))
-            numYears = endYr - startYr
+            numYears = endYr - startYr + 1
 
             self.hist = self.calculate(tracks) / numYears
 
-- 
2.43.0


From 497c05be6e1ac0bb720935fea8b0bf965812ad05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:59:43 +0000
Subject: [PATCH 82/93] fix: plot as many samples of density as there are
 simulations

The density plots failed, and the densities were not saved, when there
were fewer simulations than samples to plot.
---
 Evaluate/genesisDensity.py | 10 ++++------
 Evaluate/trackDensity.py   | 13 +++----------
 2 files changed, 7 insertions(+), 16 deletions(-)

diff --git a/Evaluate/genesisDensity.py b/Evaluate/genesisDensity.py
index da31f8f..64712a7 100755
--- a/Evaluate/genesisDensity.py
+++ b/Evaluate/genesisDensity.py
@@ -428,12 +428,10 @@ class GenesisDensity(object):
         figure2 = FilledContourMapFigure()
         figure2.add(self.hist.T*(10.**-exponent), xgrid, ygrid,
                     "Historic", lvls*(10.**-exponent), cbarlab, map_kwargs)
-        figure2.add(self.synHist[0, :, :].T*(10.**-exponent), xgrid, ygrid,
-                    "Synthetic", lvls*(10.**-exponent), cbarlab, map_kwargs)
-        figure2.add(self.synHist[1, :, :].T*(10.**-exponent), xgrid, ygrid,
-                    "Synthetic", lvls*(10.**-exponent), cbarlab, map_kwargs)
-        figure2.add(self.synHist[2, :, :].T*(10.**-exponent), xgrid, ygrid,
-                    "Synthetic", lvls*(10.**-exponent), cbarlab, map_kwargs)
+        for sample in self.synHist[:3]:
+            figure2.add(sample.T*(10.**-exponent), xgrid, ygrid,
+                        "Synthetic", lvls*(10.**-exponent), cbarlab,
+                        map_kwargs)
 
         figure2.plot()
         outputFile = pjoin(self.plotPath, 'genesis_density_samples.png')
diff --git a/Evaluate/trackDensity.py b/Evaluate/trackDensity.py
index 8fae876..11ba5b3 100644
--- a/Evaluate/trackDensity.py
+++ b/Evaluate/trackDensity.py
@@ -325,16 +325,9 @@ class TrackDensity(object):
         figure2 = ArrayMapFigure()
         figure2.add(self.hist.T, self.X, self.Y, "Historic", datarange,
                     cbarlab, self.map_kwargs)
-        figure2.add(self.synHist[0, :, :].T, self.X, self.Y, "Synthetic",
-                    datarange, cbarlab, self.map_kwargs)
-        figure2.add(self.synHist[10, :, :].T, self.X, self.Y, "Synthetic",
-                    datarange, cbarlab, self.map_kwargs)
-        figure2.add(self.synHist[20, :, :].T, self.X, self.Y, "Synthetic",
-                    datarange, cbarlab, self.map_kwargs)
-        figure2.add(self.synHist[30, :, :].T, self.X, self.Y, "Synthetic",
-                    datarange, cbarlab, self.map_kwargs)
-        figure2.add(self.synHist[40, :, :].T, self.X, self.Y, "Synthetic",
-                    datarange, cbarlab, self.map_kwargs)
+        for sample in self.synHist[:50:10]:
+            figure2.add(sample.T, self.X, self.Y, "Synthetic",
+                        datarange, cbarlab, self.map_kwargs)
         figure2.plot()
         outputFile = pjoin(self.plotPath, 'track_density_samples.png')
         saveFigure(figure2, outputFile)
-- 
2.43.0


From 71ecd9e7b3f0552a3688875aeaa756dba373f36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:59:43 +0000
Subject: [PATCH 83/93] fix: report intersections with polygons only where
 there are any

A line was always said to intersect a polygon, and the last edge of a
polygon was left out when looking for intersections with a circle.
---
 Utilities/Intersections.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Utilities/Intersections.py b/Utilities/Intersections.py
index 98a6e37..7104858 100644
--- a/Utilities/Intersections.py
+++ b/Utilities/Intersections.py
@@ -232,7 +232,7 @@ class Crossings(object):
             for p in points:
                 for i in range(len(p) - 1):
                     a1 = p[i]
-                    a2 = p[i - 1]
+                    a2 = p[i + 1]
                     inter = self.CircleLine(c, r, a1, a2)
                     if inter.status == "Intersection":
                         result.points.append(inter.points)
@@ -320,13 +320,15 @@ class Crossings(object):
                     b1 = p[i]
                     b2 = p[i + 1]
                     inter = self.LineLine(a1, a2, b1, b2)
-                    result.points.append(inter.points)
+                    if inter.status == "Intersection":
+                        result.points.append(inter.points)
         else:
             for i in range(len(points) - 1):
                 b1 = points[i]
                 b2 = points[i + 1]
                 inter = self.LineLine(a1, a2, b1, b2)
-                result.points.append(inter.points)
+                if inter.status == "Intersection":
+                    result.points.append(inter.points)
 
         if len(result.points) > 0:
             result.status = "Intersection"
-- 
2.43.0


From 095227727a911cfda5fea39e6dd80e98bfd4b0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:20 +0000
Subject: [PATCH 84/93] fix: ignore missing pressures in the minimum pressure
 of a storm

Missing central pressures are stored as zero, so a single missing record
removed the storm from the distribution of minimum pressures.
---
 Evaluate/pressureDistribution.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Evaluate/pressureDistribution.py b/Evaluate/pressureDistribution.py
index 3b19239..43d80a1 100644
--- a/Evaluate/pressureDistribution.py
+++ b/Evaluate/pressureDistribution.py
@@ -167,7 +167,10 @@ class PressureDistribution(object):
 
         for i, t in enumerate(tracks):
             if t.inRegion(self.gridLimit):
-                minCP[i] = t.CentralPressure.min()
+                # Missing pressures are set to zero
+                vv = t.CentralPressure.compress(t.CentralPressure > 0.0)
+                if len(vv) > 0:
+                    minCP[i] = vv.min()
 
         bins = np.arange(850., 1020., 5.)
         h, n = np.histogram(minCP, bins)
-- 
2.43.0


From 9b468a1d3bcf4bec810af400d012cbc3a9f96b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:18:20 +0000
Subject: [PATCH 85/93] fix: measure distances and bearings across the
 Greenwich meridian the short way

---
 Utilities/maputils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Utilities/maputils.py b/Utilities/maputils.py
index a7a3d9f..89c96cf 100644
--- a/Utilities/maputils.py
+++ b/Utilities/maputils.py
@@ -165,8 +165,13 @@ def latLon2XY(xr, yr, lat, lon, ieast=1, azimuth=0):
     cosazi = np.cos(angle)
     sinazi = np.sin(angle)
 
+    # Go the short way around between longitudes on either side of 0/360
+    dlon = np.diff(lon)
+    dlon = np.where(dlon > np.pi, dlon - 2 * np.pi, dlon)
+    dlon = np.where(dlon < -np.pi, dlon + 2 * np.pi, dlon)
+
     xntru = xr + radius * (np.diff(lat))
-    yetru = yr + ieast * radius * (np.diff(lon)) * np.cos(lat[1:])
+    yetru = yr + ieast * radius * dlon * np.cos(lat[1:])
     xn = xntru * cosazi + yetru * sinazi
     ye = -xntru * sinazi + yetru * cosazi
 
-- 
2.43.0


From 37c8f04029d763d485623c294f5108fa73358a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:41:07 +0000
Subject: [PATCH 86/93] fix: keep north up when converting grids stored from
 north to south

---
 Utilities/nc2txt.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Utilities/nc2txt.py b/Utilities/nc2txt.py
index c2362c3..1959bf8 100755
--- a/Utilities/nc2txt.py
+++ b/Utilities/nc2txt.py
@@ -90,17 +90,20 @@ def process(argv):
 
     data = nctools.ncGetData(ncobj, variable)
     ncobj.close()
+    # The first row of an ascii grid is the northernmost one
+    if lat[0] < lat[-1]:
+        data = np.flip(data, axis=-2)
     if recdim:
         for i, v in enumerate(recval):
             outputfile = "%s.%s.%s"%(os.path.splitext(filename)[0],
                                      repr(recval[i]), 'txt')
             print("Saving data to %s"%outputfile)
-            grid.grdSave(outputfile, np.flipud(data[i]), lon, lat,
+            grid.grdSave(outputfile, data[i], lon, lat,
                          delta, delimiter=' ', nodata=mv, fmt='%6.2f')
     else:
         outputfile = "%s.%s"%(os.path.splitext(filename)[0], 'txt')
         print("Saving data to %s"%outputfile)
-        grid.grdSave(outputfile, np.flipud(data), lon, lat,
+        grid.grdSave(outputfile, data, lon, lat,
                      delta, delimiter=' ', nodata=mv, fmt='%6.2f')
 
 if __name__ == '__main__':
-- 
2.43.0


From 68d445670e053748979e69eb7a3afa25aeedff09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:54:22 +0000
Subject: [PATCH 87/93] fix: leave combined multipliers missing where one of
 their parts is missing

---
 ProcessMultipliers/processMultipliers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ProcessMultipliers/processMultipliers.py b/ProcessMultipliers/processMultipliers.py
index b0bce70..904bead 100755
--- a/ProcessMultipliers/processMultipliers.py
+++ b/ProcessMultipliers/processMultipliers.py
@@ -311,7 +311,7 @@ class getMultipliers():
             CopyDatasetInfo(ds1, dsOut)
             bandOut = dsOut.GetRasterBand(1)
             bandOut.SetNoDataValue(-9999)
-            BandWriteArray(bandOut, dataOut.data)
+            BandWriteArray(bandOut, dataOut.filled(-9999))
 
     @timer
     def build_combined_multipliers_for_all_directions(self, output_path):
-- 
2.43.0


From eebffa423fd9f345e7a80ec562eb68a74dd6add7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:06:20 +0000
Subject: [PATCH 88/93] fix: read only the gust files from the wind field
 directory

---
 database/__init__.py | 6 ++++--
 hazard/__init__.py   | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/database/__init__.py b/database/__init__.py
index b972503..f4b5dbe 100644
--- a/database/__init__.py
+++ b/database/__init__.py
@@ -276,7 +276,8 @@ class _HazardDatabase(sqlite3.Connection):
         """
         log.info("Inserting records into tblEvents")
 
-        fileList = os.listdir(self.windfieldPath)
+        fileList = [f for f in os.listdir(self.windfieldPath)
+                    if f.startswith('gust.') and f.endswith('.nc')]
         fileList = [f for f in fileList if
                     os.path.isfile(pjoin(self.windfieldPath, f))]
 
@@ -363,7 +364,8 @@ class _HazardDatabase(sqlite3.Connection):
 
         """
         status = MPI.Status()
-        fileList = os.listdir(self.windfieldPath)
+        fileList = [f for f in os.listdir(self.windfieldPath)
+                    if f.startswith('gust.') and f.endswith('.nc')]
         fileList = [f for f in fileList if
                     os.path.isfile(pjoin(self.windfieldPath, f))]
 
diff --git a/hazard/__init__.py b/hazard/__init__.py
index efe209d..26ba322 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -52,7 +52,8 @@ def setDomain(inputPath):
 
     """
 
-    fileList = os.listdir(inputPath)
+    fileList = [f for f in os.listdir(inputPath)
+                if f.startswith('gust.') and f.endswith('.nc')]
     inputFile = pjoin(inputPath, fileList[0])
     ncobj = nctools.ncLoadFile(inputFile)
     wf_lon = nctools.ncGetDims(ncobj, 'lon')
@@ -911,7 +912,8 @@ def loadFilesFromPath(inputPath, tilelimits):
 
     """
 
-    fileList = os.listdir(inputPath)
+    fileList = [f for f in os.listdir(inputPath)
+                if f.startswith('gust.') and f.endswith('.nc')]
     files = [pjoin(inputPath, f) for f in fileList]
     files = [f for f in files if os.path.isfile(f)]
     log.debug("Loading data from %d files" % (len(files)))
-- 
2.43.0


From ceb27782d12f5c44f870b3a41567457bc5030d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:11:02 +0000
Subject: [PATCH 89/93] fix: count the years of every simulation in event-based
 hazard levels

---
 hazard/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hazard/__init__.py b/hazard/__init__.py
index 26ba322..69154bb 100644
--- a/hazard/__init__.py
+++ b/hazard/__init__.py
@@ -664,7 +664,7 @@ def calculateEMP(Vr, years, numsim, nodata, minRecords, yrsPerSim):
     for i in range(Vr.shape[1]): # lat
         for j in range(Vr.shape[2]): # lon
             if Vr[:,i,j].max() > 0.0: # all years at one lat/lon
-                w, l, sc, sh = evd.empfit(Vr[:,i,j], years, numsim, nodata,
+                w, l, sc, sh = evd.empfit(Vr[:,i,j], years, numsim * yrsPerSim, nodata,
                                           minRecords)
                 # w = array of return period wind speed values
                 # l = location parameter of fit
@@ -721,7 +721,7 @@ def calculateGPD(Vr, years, numsim, nodata, minRecords, yrsPerSim):
                 log.debug("lat: {0}, lon: {1}".format(i, j))
                 w, l, sc, sh = GPD.gpdfit(Vr[:,i,j],
                                           years,
-                                          numsim,
+                                          numsim * yrsPerSim,
                                           nodata,
                                           minRecords,
                                           threshold=99.5)
@@ -778,7 +778,7 @@ def calculatePower(Vr, years, numsim, nodata, minRecords, yrsPerSim):
                 log.debug("lat: {0}, lon: {1}".format(i, j))
                 w, l, sc, sh = evd.powerfit(Vr[:,i,j],
                                             years,
-                                            numsim,
+                                            numsim * yrsPerSim,
                                             nodata,
                                             minRecords)
                 # w = array of return period wind speed values
-- 
2.43.0


From 34cf9b2ee4ababfffb8a34add3ffb4e54fc9789e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:33:12 +0000
Subject: [PATCH 90/93] fix: end quietly when there are no track files to
 calculate wind fields for

---
 wind/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wind/__init__.py b/wind/__init__.py
index 01c58de..f8c705f 100644
--- a/wind/__init__.py
+++ b/wind/__init__.py
@@ -837,7 +837,7 @@ def loadTracksFromFiles(trackfiles, gridLimit, margin):
             tracks = filterTracks(loadTracks(f), gridLimit, margin)
             for track in tracks:
                 yield track
-    else:
+    elif len(trackfiles) == 1:
         f = trackfiles[0]
         msg = f'Calculating wind fields for tracks in {f}'
         log.info(msg)
-- 
2.43.0


From c3401239464cb41a497111b0e092775130ba9657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:37:57 +0000
Subject: [PATCH 91/93] fix: read a track table that has a single line

---
 Utilities/columns.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Utilities/columns.py b/Utilities/columns.py
index 392121b..b86710f 100644
--- a/Utilities/columns.py
+++ b/Utilities/columns.py
@@ -50,4 +50,5 @@ def colReadCSV(configFile, dataFile, source):
         raise TypeError(("{0} is not a string, filehandle "
                          "or generator.").format(dataFile))
 
-    return data
+    # A table with a single line is a table, too
+    return np.atleast_1d(data)
-- 
2.43.0


From 27cb9ed418f717efc9570e05fb5f2405e9d8688a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:28:19 +0000
Subject: [PATCH 92/93] fix: start the time over land anew when a simulated
 storm is back over sea

The decay of a storm over land depends on the time since landfall.
The counter was never reset, so a storm that crossed an island and made
landfall again decayed as if it had been over land all the time.
---
 TrackGenerator/TrackGenerator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/TrackGenerator/TrackGenerator.py b/TrackGenerator/TrackGenerator.py
index f9c2514..e1c3f1b 100644
--- a/TrackGenerator/TrackGenerator.py
+++ b/TrackGenerator/TrackGenerator.py
@@ -1015,6 +1015,8 @@ class TrackGenerator(object):
                 log.debug(('Central pressure {0} hours after landfall:'
                            '{1:.2f}'.format(tol, pressure[i])))
             else:
+                # The next landfall starts with no time over land
+                tol = 0.0
                 pstat = self.pStats.coeffs
                 pressure[i] = pressure[i - 1] + self.dp * self.dt
 
-- 
2.43.0


From 746bfde607e3321460f8ed2a25555e79d8721b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:48:01 +0000
Subject: [PATCH 93/93] fix: keep all positions of tracks that cross the
 Greenwich meridian in line shape files

The position before a crossing was left out of the line of a whole
track, only one crossing per track was recognised, and crossings to the
west were drawn as lines around the globe.
---
 Utilities/tracks2shp.py | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/Utilities/tracks2shp.py b/Utilities/tracks2shp.py
index 5770fa8..232cbec 100644
--- a/Utilities/tracks2shp.py
+++ b/Utilities/tracks2shp.py
@@ -230,26 +230,12 @@ def tracks2line(tracks, outputFile, dissolve=False, netcdf_format=False):
         track.data = recdropfields(track.data, ["Datetime"])
 
         if dissolve:
-            if len(track.data) > 1:
-                dlon = np.diff(track.Longitude)
-                if dlon.min() < -180:
-                    # Track crosses 0E longitude - split track
-                    # into multiple parts:
-                    idx = np.argmin(dlon)
-                    parts = []
-                    lines = zip(track.Longitude[:idx], track.Latitude[:idx])
-
-                    parts.append(lines)
-                    lines = zip(track.Longitude[idx + 1 :], track.Latitude[idx + 1 :])  # noqa
-
-                    parts.append(lines)
-                    sf.line(parts)
-                else:
-                    lines = zip(track.Longitude, track.Latitude)
-                    sf.line([lines])
-            else:
-                lines = zip(track.Longitude, track.Latitude)
-                sf.line([lines])
+            # Split the track into multiple parts where it crosses
+            # 0E longitude:
+            idx = np.flatnonzero(np.abs(np.diff(track.Longitude)) > 180.) + 1
+            sf.line([list(zip(lon, lat)) for lon, lat in
+                     zip(np.split(track.Longitude, idx),
+                         np.split(track.Latitude, idx))])
 
             if netcdf_format:
                 sf.record(*track.data[0])
@@ -290,7 +276,7 @@ def tracks2line(tracks, outputFile, dissolve=False, netcdf_format=False):
             else:
                 for n in range(len(track.data) - 1):
                     dlon = track.Longitude[n + 1] - track.Longitude[n]
-                    if dlon < -180.0:
+                    if abs(dlon) > 180.0:
                         # case where the track crosses 0E:
                         segment = [
                             [
-- 
2.43.0

