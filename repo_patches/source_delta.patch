From e6c14524b94faf9682089159761c4a383b03d978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 01/91] fix: order station pairs by network, station and
 channel codes

Concatenating the codes can order a pair differently than the database
(A.BC - AB.A), which made the correlation unreachable under its own name.
---
 src/seismic/correlate/correlate.py | 4 ++--
 src/seismic/correlate/stream.py    | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index f58d133..a02f491 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -1217,8 +1217,8 @@ def sort_comb_name_alphabetically(
     if not all([isinstance(arg, str) for arg in [
             network1, network2, station1, station2]]):
         raise TypeError('All arguments have to be strings.')
-    sort1 = network1 + station1 + channel1
-    sort2 = network2 + station2 + channel2
+    sort1 = [network1, station1, channel1]
+    sort2 = [network2, station2, channel2]
     sort = [sort1, sort2]
     sorted = sort.copy()
     sorted.sort()
diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index a90d595..b31df4c 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -1421,8 +1421,9 @@ def alphabetical_correlation(
     """
     # make sure the order is correct
     # Will do that always alphabetically sorted
-    sort1 = header1.network + header1.station + header1.channel
-    sort2 = header2.network + header2.station + header2.channel
+    # Compare code by code, the concatenated codes can have a different order
+    sort1 = [header1.network, header1.station, header1.channel]
+    sort2 = [header2.network, header2.station, header2.channel]
     sort = [sort1, sort2]
     sorted = sort.copy()
     sorted.sort()
-- 
2.43.0


From a444c9500608e7280246f37167323da197e9f21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:01 +0000
Subject: [PATCH 02/91] fix: database requests with wildcards return and delete
 exact matches

A wildcard also matched across levels of the hierarchy (A-B returned A-BC,
? acted like *), the pair could not be given in either order if any code
was a wildcard, and a wildcard for the tag ran into the options.
---
 src/seismic/db/corr_hdf5.py | 65 +++++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 21 deletions(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index 724b43b..6a78244 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -165,13 +165,7 @@ omitted." % path, category=UserWarning)
                 'Network, Station, and channel code may not contain wildcards.'
             )
         # Make sure the request is structured correctly
-        sort = ['.'.join([net, stat, chan]) for net, stat, chan in zip(
-                network.split('-'), station.split('-'), channel.split('-'))]
-        sorted = sort.copy()
-        sorted.sort()
-        if sorted != sort:
-            network, station, channel = ['-'.join([a, b]) for a, b in zip(
-                sorted[0].split('.'), sorted[1].split('.'))]
+        network, station, channel = sort_request(network, station, channel)
 
         if isinstance(corr_start, UTCDateTime):
             corr_start = corr_start.format_fissures()
@@ -193,16 +187,12 @@ omitted." % path, category=UserWarning)
             except KeyError:
                 warnings.warn(f'requested dataset {path} not found')
             return
-        # Now, we need to differ between the fnmatch pattern and the actually
-        # accessed path
-        path = path.replace('?', '*')
-        pattern = path.replace('/*', '*')
         for sst in self.get_available_starttimes(
                 network, station, tag, channel)[channel]:
             subpath = hierarchy.format(
                 tag=tag, network=network, station=station, channel=channel,
                 corr_st=sst, corr_et='')[:-1]
-            if fnmatch.fnmatch(subpath, pattern):
+            if fnmatch.fnmatchcase(sst, corr_start):
                 del self[subpath]
 
     def get_corr_options(self) -> dict:
@@ -245,13 +235,7 @@ omitted." % path, category=UserWarning)
         :rtype: CorrStream
         """
         # Make sure the request is structured correctly
-        sort = ['.'.join([net, stat, chan]) for net, stat, chan in zip(
-                network.split('-'), station.split('-'), channel.split('-'))]
-        sorted = sort.copy()
-        sorted.sort()
-        if sorted != sort:
-            network, station, channel = ['-'.join([a, b]) for a, b in zip(
-                sorted[0].split('.'), sorted[1].split('.'))]
+        network, station, channel = sort_request(network, station, channel)
 
         if isinstance(corr_start, UTCDateTime):
             corr_start = corr_start.format_fissures()
@@ -273,8 +257,17 @@ omitted." % path, category=UserWarning)
         # accessed path
         path = path.replace('?', '*')
         pattern = path.replace('/*', '*')
-        path = path.split('*')[0]
-        return all_traces_recursive(self[path], CorrStream(), pattern)
+        # The lowest group whose name is known
+        path = path.split('*')[0].rpartition('/')[0] + '/'
+        st = all_traces_recursive(self[path], CorrStream(), pattern)
+        # '*' also matches '/'. So compare the single fields as well
+        fields = (network, station, channel, corr_start, corr_end)
+        return st and CorrStream([
+            tr for tr in st if all(
+                fnmatch.fnmatchcase(x, y) for x, y in zip((
+                    tr.stats.network, tr.stats.station, tr.stats.channel,
+                    tr.stats.corr_start.format_fissures(),
+                    tr.stats.corr_end.format_fissures()), fields))])
 
     def get_available_starttimes(
         self, network: str, station: str, tag: str,
@@ -424,6 +417,33 @@ class CorrelationDataBase(object):
             return False
 
 
+def sort_request(network: str, station: str, channel: str) -> tuple:
+    """
+    Bring the combined codes of a request in the order, in which the database
+    holds them.
+
+    :param network: Network combination code
+    :type network: str
+    :param station: Station combination code
+    :type station: str
+    :param channel: Channel combination code
+    :type channel: str
+    :return: The (eventually swapped) network, station, and channel codes.
+    :rtype: Tuple[str, str, str]
+    """
+    codes = [x.split('-') for x in (network, station, channel)]
+    for x in codes:
+        if '*' in ''.join(x) or '?' in ''.join(x) or len(x) != 2:
+            # Nothing that could be compared
+            break
+        elif x[0] != x[1]:
+            if x[0] > x[1]:
+                network, station, channel = (
+                    '-'.join(reversed(y)) for y in codes)
+            break
+    return network, station, channel
+
+
 def all_traces_recursive(
     group: h5py._hl.group.Group, stream: CorrStream,
         pattern: str) -> CorrStream:
@@ -444,6 +464,9 @@ def all_traces_recursive(
     for v in group.values():
         if isinstance(v, h5py._hl.group.Group):
             all_traces_recursive(v, stream, pattern)
+        elif v.name == '/co':
+            # Not a correlation but the correlation options
+            continue
         elif not fnmatch.fnmatch(v.name, pattern) and v.name not in pattern:
             continue
         else:
-- 
2.43.0


From 23bebdb7370f131ec32f48737be3d05e48f616eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 03/91] fix: list available data for combinations that do not
 exist

Asking for the start times of a combination without data raised a KeyError,
e.g., whenever the name of another station pair's file has the same
beginning. Channels whose data have been removed are no longer listed.
---
 src/seismic/db/corr_hdf5.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index 6a78244..7abe409 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -303,8 +303,13 @@ omitted." % path, category=UserWarning)
                 return out
             channel = [channel]
         path = '/'.join(path.split('/')[:-3])
+        try:
+            available = list(self[path].keys())
+        except KeyError:
+            # No channels available
+            return out
         for ch in channel:
-            for match in fnmatch.filter(self[path].keys(), ch):
+            for match in fnmatch.filter(available, ch):
                 out[match] = list(self['/'.join([path, match])].keys())
         return out
 
@@ -328,7 +333,10 @@ omitted." % path, category=UserWarning)
             corr_st='*', corr_et='*')
         path = path.split('*')[0]
         try:
-            return list(self[path].keys())
+            # Groups remain after all their data have been removed
+            return [
+                ch for ch, group in self[path].items()
+                if not isinstance(group, h5py.Group) or len(group)]
         except KeyError:
             # No channels available
             return []
-- 
2.43.0


From b26ffccfd735b2fb0c5f43565a82c071bd1ea3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:15 +0000
Subject: [PATCH 04/91] fix: ignore all masking steps when comparing processing
 parameters

Removing from the list while iterating skipped the step after a removed one,
so that only every other of several stream_mask_at_utc steps was ignored.
---
 src/seismic/db/corr_hdf5.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index 7abe409..2271b87 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -554,8 +554,9 @@ def co_to_hdf5(co: dict) -> dict:
         coc['subdivision'].pop('recombine_subdivision', None)
         coc['subdivision'].pop('delete_subdivision', None)
     try:
-        [coc['preProcessing'].remove(step) for step in coc['preProcessing']
-            if 'stream_mask_at_utc' in step['function']]
+        coc['preProcessing'] = [
+            step for step in coc['preProcessing']
+            if 'stream_mask_at_utc' not in step['function']]
     except KeyError:
         pass
     return coc
-- 
2.43.0


From a816a68e298a0ca0377183ae07b605966810a54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 05/91] fix: no incomplete records after a failure while
 storing a correlation

If writing the header (or the options) fails, the dataset stayed behind
without it: it could not be read and was never computed again.
---
 src/seismic/db/corr_hdf5.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index 2271b87..1ff1942 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -96,7 +96,12 @@ class DBHandler(h5py.File):
     def add_corr_options(self, co: dict):
         sco = str(co_to_hdf5(co))
         ds = self.create_dataset('co', data=np.empty(1))
-        ds.attrs['co'] = sco
+        try:
+            ds.attrs['co'] = sco
+        except BaseException:
+            # Do not leave a dataset without options behind
+            del self['co']
+            raise
 
     def add_correlation(
             self, data: CorrTrace or CorrStream, tag='subdivision'):
@@ -135,11 +140,17 @@ class DBHandler(h5py.File):
                 ds = self.create_dataset(
                     path, data=tr.data, compression=self.compression,
                     compression_opts=self.compression_opts)
-                convert_header_to_hdf5(ds, st)
             except ValueError as e:
                 print(e)
                 warnings.warn("The dataset %s is already in file and will be \
 omitted." % path, category=UserWarning)
+                continue
+            try:
+                convert_header_to_hdf5(ds, st)
+            except BaseException:
+                # Do not leave data without (complete) header behind
+                del self[path]
+                raise
 
     def remove_data(
         self, network: str, station: str, channel: str, tag: str,
-- 
2.43.0


From 5af61b6e7f204b5c030032d766cfebf4b2a124be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:41 +0000
Subject: [PATCH 06/91] fix: start times for channel codes with a ? wildcard

---
 src/seismic/db/corr_hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index 1ff1942..becdb8b 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -305,7 +305,7 @@ omitted." % path, category=UserWarning)
             corr_st='*', corr_et='*')
         out = {}
         if isinstance(channel, str):
-            if '*' not in channel:
+            if '*' not in channel and '?' not in channel:
                 path = '/'.join(path.split('/')[:-2])
                 try:
                     out[channel] = list(self[path].keys())
-- 
2.43.0


From d4a7f3824bab959591493c3862eae4b46b128abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 07/91] fix: lag of the last sample of a new correlation

It was one sample too late. If the order of the stations is swapped, the
first lag is derived from it, so the lag axis was shifted by one sample.
---
 src/seismic/correlate/correlate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index a02f491..41e4d98 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -386,7 +386,8 @@ class Correlator(object):
         if self.rank == 0:
             for ii, (startlag, comb) in enumerate(
                     zip(startlags, self.options['combinations'])):
-                endlag = startlag + len(A[ii, :])/self.options['sampling_rate']
+                endlag = startlag + (
+                    len(A[ii, :]) - 1)/self.options['sampling_rate']
                 cst.append(
                     CorrTrace(
                         A[ii], header1=st[comb[0]].stats,
-- 
2.43.0


From dd108893da903566a2e27679750adcb278f5a8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:18 +0000
Subject: [PATCH 08/91] fix: stack exactly the correlations of one read window

The first correlation of a read window was already added to those of the
previous one before they were written and stacked.
---
 src/seismic/correlate/correlate.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 41e4d98..62b207f 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -340,15 +340,16 @@ class Correlator(object):
         inv = self.comm.bcast(inv, root=0)
 
         for st, write_flag in self._generate_data():
-            cst.extend(self._pxcorr_inner(st, inv))
-            if write_flag:
+            # A new read increment begins. So cst holds exactly the
+            # correlations of the last one
+            if write_flag and cst.count():
                 self.logger.debug('Writing Correlations to file.')
                 # Here, we can recombine the correlations for the read_len
                 # size (i.e., stack)
                 # Write correlations to HDF5
-                if cst.count():
-                    self._write(cst)
-                    cst.clear()
+                self._write(cst)
+                cst.clear()
+            cst.extend(self._pxcorr_inner(st, inv))
 
         # write the remaining data
         if cst.count():
-- 
2.43.0


From 00147931805e18915e6cd67982b440f49cffb1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 09/91] fix: a channel that cannot be processed only affects
 itself

If downsampling or preprocessing failed, all channels of this process were
skipped for the read window and the processes went out of step.
---
 src/seismic/correlate/correlate.py | 57 +++++++++++++++---------------
 1 file changed, 29 insertions(+), 28 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 62b207f..70bcff0 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -510,40 +510,41 @@ class Correlator(object):
                 if stext is None or not len(stext):
                     # No data for this station to read
                     continue
-                st.extend(stext)
 
-            # Stream based preprocessing
-            # Downsampling
-            # 04/04/2023 Downsample before preprocessing for performance
-            # Check sampling frequency
-            sampling_rate = self.options['sampling_rate']
-            # AA-Filter is done in this function as well
-            try:
-                st = mu.resample_or_decimate(st, sampling_rate)
-            except ValueError as e:
-                self.logger.error(
-                    'Downsampling failed for '
-                    f'{st[0].stats.network}.{st[0].stats.station} and time'
-                    f' {t}.\nThe Original Error Message was {e}.')
-                continue
-            # The actual data in the mseeds was changed from int to float64
-            # now,
-            # Save some space by changing it back to 32 bit (most of the
-            # digitizers work at 24 bit anyways)
-            mu.stream_require_dtype(st, np.float32)
-
-            if not self.options['preprocess_subdiv']:
+                # Stream based preprocessing
+                # Downsampling
+                # 04/04/2023 Downsample before preprocessing for performance
+                # Check sampling frequency
+                sampling_rate = self.options['sampling_rate']
+                # AA-Filter is done in this function as well
                 try:
-                    self.logger.debug('Preprocessing stream...')
-                    st = preprocess_stream(
-                        st, self.store_client, startt, endt, tl,
-                        **self.options)
+                    stext = mu.resample_or_decimate(stext, sampling_rate)
                 except ValueError as e:
+                    # Only skip this channel. The other channels and
+                    # processes still have to go through all windows
                     self.logger.error(
-                        'Stream preprocessing failed for '
-                        f'{st[0].stats.network}.{st[0].stats.station} and time'
+                        f'Downsampling failed for {net}.{stat} and time'
                         f' {t}.\nThe Original Error Message was {e}.')
                     continue
+                # The actual data in the mseeds was changed from int to
+                # float64 now,
+                # Save some space by changing it back to 32 bit (most of the
+                # digitizers work at 24 bit anyways)
+                mu.stream_require_dtype(stext, np.float32)
+
+                if not self.options['preprocess_subdiv']:
+                    try:
+                        self.logger.debug('Preprocessing stream...')
+                        stext = preprocess_stream(
+                            stext, self.store_client, startt, endt, tl,
+                            **self.options)
+                    except ValueError as e:
+                        self.logger.error(
+                            'Stream preprocessing failed for '
+                            f'{net}.{stat} and time'
+                            f' {t}.\nThe Original Error Message was {e}.')
+                        continue
+                st.extend(stext)
 
             # Slice the stream in correlation length
             # -> Loop over correlation increments
-- 
2.43.0


From 31a96617636f8cb1eeb8e836a21ad0dcd62383d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:24 +0000
Subject: [PATCH 10/91] fix: detrending and tapering keep the time of traces
 with masked ends

Splitting a trace removes masked samples at its ends, but its start time
stayed the same, so that the data were shifted in time.
---
 src/seismic/correlate/preprocessing_stream.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/preprocessing_stream.py b/src/seismic/correlate/preprocessing_stream.py
index 6ff6051..215dcad 100644
--- a/src/seismic/correlate/preprocessing_stream.py
+++ b/src/seismic/correlate/preprocessing_stream.py
@@ -93,6 +93,8 @@ def cos_taper(
         st = cos_taper_st(st, taper_len, False, False)
         st = st.merge()
         if st.count():
+            # splitting removes masked samples at the ends
+            st.trim(tr.stats.starttime, tr.stats.endtime, pad=True)
             tr.data = st[0].data
             return tr
         else:
@@ -128,8 +130,14 @@ def detrend_st(st: Stream, *args, **kwargs) -> Stream:
     """
     for tr in st:
         sst = tr.split()
+        if not sst.count():
+            # No data at all
+            continue
         sst.detrend(*args, **kwargs)
-        tr.data = sst.merge()[0].data
+        sst.merge()
+        # splitting removes masked samples at the ends
+        sst.trim(tr.stats.starttime, tr.stats.endtime, pad=True)
+        tr.data = sst[0].data
     return st
 
 
-- 
2.43.0


From 81dcd6db3341b8c0ac6774328a7717f74627f609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 11/91] fix: windows start at the read start if preprocessing
 per subdivision

They were relative to the first sample of the first trace, which differs
between processes and if data are missing.
---
 src/seismic/correlate/correlate.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 70bcff0..08e7d1c 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -544,6 +544,11 @@ class Correlator(object):
                             f'{net}.{stat} and time'
                             f' {t}.\nThe Original Error Message was {e}.')
                         continue
+                else:
+                    # The windows are relative to the start of the stream
+                    stext.merge(method=-1)
+                    stext.merge()
+                    stext.trim(startt, endt, pad=True)
                 st.extend(stext)
 
             # Slice the stream in correlation length
-- 
2.43.0


From b794206b3f62e94e2e95facc771aac14d8293af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 12/91] fix: requested combinations in any order, with or
 without channels

Combinations in reversed order or with channels were not looked up in the
database and their second station was not read. A combination without
channels also selected stations whose code only starts like the requested.
---
 src/seismic/correlate/correlate.py | 47 ++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 08e7d1c..de70338 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -225,14 +225,24 @@ class Correlator(object):
                 != 'betweenStations':
             return
         self.station = [
-            [n, s] for n, s in self.station if
-            fnmatch.filter(self.rcombis, f'{n}-*.{s}-*') or fnmatch.filter(
-                self.rcombis, f'*-{n}.*-{s}')]
+            [n, s] for n, s in self.station if self._in_rcombis(n, s)]
         # same check for avail_raw_data
         self.avail_raw_data = [
-            [n, s, c] for n, s, c in self.avail_raw_data if
-            fnmatch.filter(self.rcombis, f'{n}-*.{s}-*') or fnmatch.filter(
-                self.rcombis, f'*-{n}.*-{s}')]
+            [n, s, c] for n, s, c in self.avail_raw_data
+            if self._in_rcombis(n, s)]
+
+    def _in_rcombis(self, net: str, stat: str) -> bool:
+        """
+        Is the station one of the two in any requested combination (with or
+        without channels)?
+        """
+        for combi in self.rcombis:
+            nets, stats = combi.split('.')[:2]
+            if any(
+                fnmatch.fnmatchcase(net, n) and fnmatch.fnmatchcase(stat, s)
+                    for n, s in zip(nets.split('-'), stats.split('-'))):
+                return True
+        return False
 
     def find_interstat_dist(self, dis: float):
         """
@@ -844,8 +854,27 @@ def is_in_xcombis(id1: str, id2: str, rcombis: List[str] = None) -> bool:
     tcombi = f'{n1}-{n2}.{s1}-{s2}.{c1}-{c2}'
     tcombi2 = f'{n2}-{n1}.{s2}-{s1}.{c2}-{c1}'
     for combi in rcombis:
-        if fnmatch.fnmatch(tcombi, combi+'*') or fnmatch.fnmatch(
-                tcombi2, combi+'*'):
+        if combi.count('.') < 2:
+            # no channels given
+            combi += '.*'
+        if fnmatch.fnmatchcase(tcombi, combi) or fnmatch.fnmatchcase(
+                tcombi2, combi):
+            return True
+    return False
+
+
+def stations_in_xcombis(
+    net1: str, stat1: str, net2: str, stat2: str,
+        rcombis: List[str]) -> bool:
+    """
+    Check whether any channels of the two stations are to be correlated
+    according to the requested combinations (in either order).
+    """
+    for combi in rcombis:
+        combi = '.'.join(combi.split('.')[:2])
+        if fnmatch.fnmatchcase(
+            f'{net1}-{net2}.{stat1}-{stat2}', combi) or fnmatch.fnmatchcase(
+                f'{net2}-{net1}.{stat2}-{stat1}', combi):
             return True
     return False
 
@@ -1278,7 +1307,7 @@ def compute_network_station_combinations(
                     # Check requested combinations
                     if (
                         combis is not None
-                        and f'{nc[0]}-{nc[1]}.{sc[0]}-{sc[1]}' not in combis
+                        and not stations_in_xcombis(n, s, n2, s2, combis)
                     ):
                         continue
                     netcombs.append('%s-%s' % (nc[0], nc[1]))
-- 
2.43.0


From c485dccd4d570935247ccb6af3cc96c05a43d36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 13/91] fix: same number of correlation windows on all
 processes

If samples of two channels are not taken at the same times, an additional
window was produced, so that processes went out of step.
---
 src/seismic/correlate/correlate.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index de70338..79bd848 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -1446,10 +1446,12 @@ def generate_corr_inc(
     :yield: Equal length windows, padded with nans / masked if data is missing.
     :rtype: Generator[Stream]
     """
-
+    nwin = int(np.ceil(read_len/subdivision['corr_inc']))
     try:
         # Second loop to return the time window in correlation length
-        for ii, win0 in enumerate(st.slide(
+        # The number of windows has to be the same for all processes, also if
+        # the samples of the traces are not taken at exactly the same times.
+        for ii, win0 in zip(range(nwin), st.slide(
             subdivision['corr_len']-st[0].stats.delta, subdivision['corr_inc'],
                 include_partial_windows=True)):
 
@@ -1467,6 +1469,5 @@ def generate_corr_inc(
         win = Stream()
         # A little dirty, but it has to go through an equally long loop
         # else this will cause a deadlock
-        for _ in range(int(np.ceil(
-                read_len/subdivision['corr_inc']))):
+        for _ in range(nwin):
             yield win
-- 
2.43.0


From b84e110cd100f24e23eefcc12cbb043ce2eff7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:44 +0000
Subject: [PATCH 14/91] fix: resume after a failure while writing the first
 dataset

A file without options could not be opened read-only, and the group of a
record that was rolled back was listed as an available start time, so that
the correlation was never computed again.
---
 src/seismic/db/corr_hdf5.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index becdb8b..1ff5e18 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -88,7 +88,9 @@ class DBHandler(h5py.File):
                         f'\n{diff}'
                     )
             except KeyError:
-                self.add_corr_options(co)
+                # Nothing to compare to. Read-only, they can't be added
+                if mode != 'r':
+                    self.add_corr_options(co)
 
     def _close(self):
         self.close()
@@ -150,6 +152,10 @@ omitted." % path, category=UserWarning)
             except BaseException:
                 # Do not leave data without (complete) header behind
                 del self[path]
+                start = path.rpartition('/')[0]
+                if not len(self[start]):
+                    # else it would be listed as available
+                    del self[start]
                 raise
 
     def remove_data(
-- 
2.43.0


From de9068ee2a8f08687242746febac25ffe2573f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:44 +0000
Subject: [PATCH 15/91] fix: stacks of read windows that were already partly in
 the database

If a run died within a read window, the next run stored a stack of only the
remaining correlations, or none if only the stack was missing.
---
 src/seismic/correlate/correlate.py | 109 ++++++++++++++++++++++++++++-
 1 file changed, 107 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 79bd848..d24cc7f 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -120,6 +120,10 @@ class Correlator(object):
                 file.write(json.dumps(opt_dump, indent=1))
 
         self.options = options['co']
+        # correlations that were in the database before this run
+        self.ex_dict = {}
+        # start of the read windows that are being read / to be written
+        self._read_start = self._written_read_start = None
 
         # requested combis?
         if 'xcombinations' in self.options:
@@ -360,11 +364,14 @@ class Correlator(object):
                 self._write(cst)
                 cst.clear()
             cst.extend(self._pxcorr_inner(st, inv))
+            self._written_read_start = self._read_start
 
         # write the remaining data
         if cst.count():
             self._write(cst)
             cst.clear()
+        if self.options['subdivision']['recombine_subdivision']:
+            self._complete_stacks()
 
     def _pxcorr_inner(self, st: Stream, inv: Inventory) -> CorrStream:
         """
@@ -446,7 +453,8 @@ class Correlator(object):
                 outf = os.path.join(self.corr_dir, f'{net}.{stat}.h5')
                 cstselect = cst.select(network=net, station=stat)
             if self.options['subdivision']['recombine_subdivision']:
-                stack = cstselect.stack(regard_location=False)
+                stack = self._new_windows(cstselect).stack(
+                    regard_location=False)
                 stacktag = 'stack_%s' % str(self.options['read_len'])
             else:
                 stack = None
@@ -460,6 +468,103 @@ class Correlator(object):
                 if stack is not None:
                     cdb.add_correlation(stack, stacktag)
 
+    def _existing_starts(self, netcomb: str, statcomb: str) -> dict:
+        """
+        The starttimes that were in the database before this run for each
+        channel combination of two stations.
+        """
+        n0, n1 = netcomb.split('-')
+        s0, s1 = statcomb.split('-')
+        return self.ex_dict.get(f'{n0}.{s0}', {}).get(f'{n1}.{s1}', {})
+
+    def _in_read_window(
+            self, starts: List[str], readstart: UTCDateTime) -> List[str]:
+        """
+        Those starttimes that belong to the read window that starts at
+        `readstart`.
+        """
+        # samples are not always taken exactly at the start of the window
+        t0 = readstart - .5/self.sampling_rate
+        t1 = (t0 + self.options['read_len']).format_fissures()
+        t0 = t0.format_fissures()
+        return [start for start in starts if t0 <= start < t1]
+
+    def _new_windows(self, cst: CorrStream) -> CorrStream:
+        """
+        The combinations of which no correlations in the current read window
+        were in the database yet. The others have to be stacked together with
+        those, see :meth:`_complete_stacks`.
+        """
+        if not self.ex_dict or \
+                self.options['subdivision']['delete_subdivision']:
+            return cst
+        out = CorrStream()
+        known = {}
+        for tr in cst:
+            key = (tr.stats.network, tr.stats.station, tr.stats.channel)
+            if key not in known:
+                known[key] = len(self._in_read_window(
+                    self._existing_starts(*key[:2]).get(key[2], []),
+                    self._written_read_start))
+            if not known[key]:
+                out.append(tr)
+        return out
+
+    def _complete_stacks(self):
+        """
+        Adds the missing stacks of read windows that hold correlations of an
+        earlier run (e.g., because it died before it could stack them).
+        """
+        self.comm.barrier()
+        t0 = UTCDateTime(self.options['read_start']).timestamp
+        t1 = UTCDateTime(self.options['read_end']).timestamp
+        loop_window = np.arange(t0, t1, self.options['read_inc'])
+        pairs = [
+            (st0, st1) for st0 in self.ex_dict for st1 in self.ex_dict[st0]
+            if self.ex_dict[st0][st1]]
+        for st0, st1 in pairs[self.rank::self.psize]:
+            net, stat = ('-'.join(x) for x in zip(
+                st0.split('.'), st1.split('.')))
+            for cha, existing in self.ex_dict[st0][st1].items():
+                readstarts = [
+                    UTCDateTime(t) for t in loop_window
+                    if self._in_read_window(existing, UTCDateTime(t))]
+                outf = f'{net}.{stat}'
+                if self.save_comps_separately:
+                    outf += f'.{cha}'
+                outf = os.path.join(self.corr_dir, f'{outf}.h5')
+                if not readstarts or not os.path.isfile(outf):
+                    continue
+                with CorrelationDataBase(
+                    outf, corr_options=self.options,
+                        _force=self._allow_different_params) as cdb:
+                    for readstart in readstarts:
+                        self._complete_stack(
+                            cdb, net, stat, cha, readstart)
+
+    def _complete_stack(
+        self, cdb, net: str, stat: str, cha: str,
+            readstart: UTCDateTime):
+        """
+        Adds the stack of the subdivisions in the read window, if it does not
+        exist.
+        """
+        group = f'/subdivision/{net}/{stat}/{cha}'
+        if group not in cdb:
+            return
+        starts = sorted(self._in_read_window(list(cdb[group]), readstart))
+        if not starts:
+            return
+        end = max(max(cdb[f'{group}/{start}']) for start in starts)
+        tag = 'stack_%s' % str(self.options['read_len'])
+        if f'/{tag}/{net}/{stat}/{cha}/{starts[0]}/{end}' in cdb:
+            return
+        cst = CorrStream()
+        for start in starts:
+            cst.extend(cdb.get_data(
+                net, stat, cha, 'subdivision', UTCDateTime(start)))
+        cdb.add_correlation(cst.stack(regard_location=False), tag)
+
     def _generate_data(self) -> Iterator[Tuple[Stream, bool]]:
         """
         Returns an Iterator that loops over each start and end time with the
@@ -507,7 +612,7 @@ class Correlator(object):
         # Loop over read increments
         for t in tqdm(loop_window):
             write_flag = True  # Write length is same as read length
-            startt = UTCDateTime(t)
+            startt = self._read_start = UTCDateTime(t)
             endt = startt + self.options['read_len']
             st = Stream()
 
-- 
2.43.0


From c22fae7640f0c2c06eba022531c7df8ef01a2360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:54 +0000
Subject: [PATCH 16/91] fix: correlations with an odd number of samples in the
 frequency domain

The inverse transform returned one sample less, which stretched the lag
axis and distorted the correlation.
---
 src/seismic/correlate/correlate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index d24cc7f..54eb249 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -828,7 +828,7 @@ class Correlator(object):
         ######################################
         # correlation
         csize = len(self.options['combinations'])
-        irfftsize = (fftsize-1)*2
+        irfftsize = zmsize[1]
         sampleToSave = int(
             np.ceil(
                 corr_args['lengthToSave'] * self.sampling_rate))
@@ -878,7 +878,7 @@ class Correlator(object):
             ######################################
             # frequency domain postProcessing
             #
-            tmp = np.fft.irfft(M).real
+            tmp = np.fft.irfft(M, irfftsize).real
 
             # cut the center and do fftshift
             C[ii, :] = np.concatenate(
-- 
2.43.0


From a64d00505d19c424a068cc6c7ed591c5c7f6297c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:55 +0000
Subject: [PATCH 17/91] fix: waveform coherence with several processes

All processes wrote every average to the same file at the same time, and
component results got lost if a process came to its first one before process
0 had created the folder.
---
 src/seismic/monitor/monitor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index f7cdf73..0e9efc4 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -535,7 +535,8 @@ class Monitor(object):
                     wfc.wfc_processing['freq_max'],
                     wfc.wfc_processing['tw_start'],
                     wfc.wfc_processing['tw_len']))
-        wfc_avl = list(set(wfc_avl))
+        # Each average is computed and written by one process
+        wfc_avl = sorted(set(wfc_avl))[self.rank::self.psize]
         wfcl_sub = []
         for avl in wfc_avl:
             net, stat, fmin, fmax, tw_start, tw_len = avl
@@ -603,8 +604,7 @@ class Monitor(object):
         cb = cst.create_corr_bulk(inplace=True)
         outdir = os.path.join(
             self.options['proj_dir'], self.options['wfc']['subdir'])
-        if self.rank == 0:
-            os.makedirs(outdir, exist_ok=True)
+        os.makedirs(outdir, exist_ok=True)
 
         # for possible rest bits
         del cst
-- 
2.43.0


From 752ca315ba39d741bbb3d5b8fabf53aabf39e76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:01 +0000
Subject: [PATCH 18/91] fix: stacks reach to the latest end of their
 correlations

---
 src/seismic/correlate/stream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index b31df4c..b884f7a 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -1226,7 +1226,7 @@ class CorrStream(Stream):
         if not starttime:
             starttime = self[0].stats.corr_start
         if not endtime:
-            endtime = self[-1].stats.corr_end
+            endtime = max(tr.stats.corr_end for tr in self)
         outst = CorrStream()
         if stack_len == 'daily':
             starttime = UTCDateTime(
@@ -1628,7 +1628,7 @@ def stack_st(st: CorrStream, weight: str, norm: bool = True) -> CorrTrace:
     """
     st.sort(keys=['corr_start'])
     stats = st[0].stats.copy()
-    stats['corr_end'] = st[-1].stats['corr_end']
+    stats['corr_end'] = max(tr.stats['corr_end'] for tr in st)
     st.sort(keys=['npts'])
     npts = st[-1].stats.npts
     stack = []
-- 
2.43.0


From 240167d8c182c32296fd0cf844c6244eab1f3a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:01 +0000
Subject: [PATCH 19/91] fix: samples without data in stacks weighted by length

---
 src/seismic/correlate/stream.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index b884f7a..16bff0d 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -1645,7 +1645,9 @@ def stack_st(st: CorrStream, weight: str, norm: bool = True) -> CorrTrace:
         return CorrTrace(data, _header=stats)
     elif weight == 'by_length':
         # Weight by the length of each trace
-        data = np.nansum((A.T*np.array(dur)).T, axis=0)/np.nansum(dur)
+        # Samples without data do not count
+        w = np.array(dur)[:, np.newaxis]*~np.isnan(A)
+        data = np.nansum((A.T*np.array(dur)).T, axis=0)/np.sum(w, axis=0)
         if norm:
             norm = np.nanmax(np.abs(data))
             data /= norm  # np.tile(np.atleast_2d(norm).T, (1, A.shape[1]))
-- 
2.43.0


From f7fc29dd830c6f8cf3e47b5baa332f94c70d44a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:02 +0000
Subject: [PATCH 20/91] fix: correlations across midnight when selecting times
 of day

---
 src/seismic/correlate/stream.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 16bff0d..fc022b7 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -1096,11 +1096,17 @@ class CorrStream(Stream):
         :rtype: CorrStream
         """
         cst_select = CorrStream()
-        start = datetime.time(*start)
-        end = datetime.time(*end)
+        # seconds may be given as float
+        start, end = (
+            (datetime.datetime.min + datetime.timedelta(
+                hours=h, minutes=m, seconds=s)).time()
+            for h, m, s in (start, end))
         for tr in self:
-            if tr.stats.corr_start.time >= start \
-                    and tr.stats.corr_end.time <= end:
+            corr_start, corr_end = tr.stats.corr_start, tr.stats.corr_end
+            # the next midnight, a correlation must not reach beyond it
+            midnight = UTCDateTime(corr_start.date) + 24*3600
+            if corr_start.time >= start and corr_end.time <= end \
+                    and corr_end <= midnight:
                 if not exclude:
                     cst_select.append(tr)
             else:
-- 
2.43.0


From 758ab9df43439ded6feb960b10dc88d5ee282750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:02 +0000
Subject: [PATCH 21/91] fix: error for a correlation matrix without any data

---
 src/seismic/correlate/stream.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index fc022b7..7396ea6 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -923,9 +923,10 @@ class CorrStream(Stream):
         if times:
             st = st.select_corr_time(times[0], times[1])
         if not st.count():
-            raise ValueError(
-                f'CorrStream contains no data between {times[0]} and '
-                f'{times[1]}.')
+            msg = 'CorrStream contains no data'
+            if times:
+                msg += f' between {times[0]} and {times[1]}'
+            raise ValueError(msg + '.')
         A = np.empty((st.count(), st[0].stats.npts))
         statlist = []
         # Double check sampling rate
-- 
2.43.0


From 641d5fb0208746372c7ec6d08f0e19b3cf19ffa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:38 +0000
Subject: [PATCH 22/91] fix: trimming labels the samples with their own lag

---
 src/seismic/monitor/trim.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/seismic/monitor/trim.py b/src/seismic/monitor/trim.py
index b1bfedb..b807c70 100644
--- a/src/seismic/monitor/trim.py
+++ b/src/seismic/monitor/trim.py
@@ -41,9 +41,11 @@ def corr_mat_trim(
     """
 
     # fetch indices of start and end
-    start = int(
-        np.floor((starttime-stats['start_lag'])*stats['sampling_rate']))
-    end = int(np.floor((endtime-stats['start_lag'])*stats['sampling_rate']))
+    # (rounded because a lag might not be an exact multiple of the interval)
+    start = int(np.ceil(np.round(
+        (starttime-stats['start_lag'])*stats['sampling_rate'], 6)))
+    end = int(np.floor(np.round(
+        (endtime-stats['start_lag'])*stats['sampling_rate'], 6)))
 
     # check range
     if start < 0:
@@ -63,6 +65,6 @@ def corr_mat_trim(
         stats['npts'] = data.shape[1]
 
     # set starttime, endtime and npts of the new stats
-    stats['start_lag'] = starttime
+    stats['start_lag'] += start/stats['sampling_rate']
 
     return data, stats
-- 
2.43.0


From 34d20f74b11d81d2752fe1c761d2da2efb3ca852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:38 +0000
Subject: [PATCH 23/91] fix: mirroring of lags that are not exact multiples of
 the interval

---
 src/seismic/monitor/post_corr_process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index ecf5072..7b4bdbc 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -460,7 +460,8 @@ def corr_mat_mirror(data: np.ndarray, stats: CorrStats) -> Tuple[
     :rtype: Tuple[np.ndarray, CorrStats]
     """
 
-    zero_sample = -(stats['start_lag']*stats['sampling_rate'])
+    # rounded because the lag is a multiple of a float sampling interval
+    zero_sample = np.round(-(stats['start_lag']*stats['sampling_rate']), 6)
 
     if zero_sample <= 0:
         print('No data present for mirroring: starttime > zerotime.')
-- 
2.43.0


From f75026354197b8d3d9d3be827483ac8e229406eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:05 +0000
Subject: [PATCH 24/91] fix: labels and count of the rows of a resampled matrix

---
 src/seismic/monitor/post_corr_process.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 7b4bdbc..4965bd9 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -271,7 +271,7 @@ def corr_mat_resample(
     else:
         if len(start_times) == 1:
             # there is only one start_time given and no end_time => average all
-            etime = np.array([stats['corr_end'][-1].timestamp])
+            etime = np.array([max(stats['corr_end']).timestamp])
         else:
             stime = np.array(stime)  # Cannot be a list for this operation
             etime = stime + (stime[1] - stime[0])
@@ -283,10 +283,18 @@ def corr_mat_resample(
     nmat = np.empty([len(stime), data.shape[1]])
     nmat.fill(np.nan)
 
+    # labels of the rows, those of the first measurement in the bin
+    labels = {
+        k: [stats[k][0]]*len(stime) for k in ('location', 'channel')
+        if isinstance(stats.get(k), list) and len(stats[k]) == len(otime)}
+
     for ii in range(len(stime)):
         # index of measurements between start_time[ii] and end_time[ii]
         ind = np.nonzero((otime >= stime[ii]) * (otime < etime[ii]))
         # ind is a list(tuple) for dimensions
+        if len(ind[0]):
+            for k, label in labels.items():
+                label[ii] = stats[k][ind[0][0]]
         if len(ind[0]) == 1:
             # one measurement found
             nmat[ii, :] = data[ind[0], :]
@@ -299,6 +307,10 @@ def corr_mat_resample(
 
     stats['corr_start'] = [UTCDateTime(st) for st in stime]
     stats['corr_end'] = [UTCDateTime(et) for et in etime]
+    for k, label in labels.items():
+        stats[k] = label
+    if 'ntrcs' in stats:
+        stats['ntrcs'] = len(stime)
 
     return data, stats
 
-- 
2.43.0


From 8176f61917915498ec81e78b7d85cea8ccc28c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:05 +0000
Subject: [PATCH 25/91] fix: reloaded correlation matrices

---
 src/seismic/correlate/stream.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 7396ea6..0ea02ad 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -61,12 +61,22 @@ class CorrBulk(object):
         self.data = A
         if stats:
             self.stats = stats
+            if not isinstance(stats, CorrStats):
+                # reloaded from a file
+                self.stats = CorrStats(stats)
+                for k in ('corr_start', 'corr_end'):
+                    if k in stats and isinstance(stats[k], UTCDateTime):
+                        self.stats[k] = [stats[k]]
+                for k, v in stats.items():
+                    if isinstance(v, np.ndarray):
+                        self.stats[k] = v.tolist()
         elif statlist:
             self.stats = convert_statlist_to_bulk_stats(statlist)
         else:
             self.stats = CorrStats()
             self.stats['ntrcs'], self.stats['npts'] = A.shape
-        self.stats['processing_bulk'] = []
+        if 'processing_bulk' not in self.stats:
+            self.stats['processing_bulk'] = []
         self.ref_trc = None
 
     def __getitem__(self, item):
@@ -818,7 +828,7 @@ class CorrBulk(object):
             ii = np.logical_and(
                 np.array(self.stats.corr_start) >= starttime,
                 np.array(self.stats.corr_end) <= endtime)
-        ii = np.squeeze(ii)
+        ii = np.atleast_1d(np.squeeze(ii))
         if not len(np.nonzero(ii)[0]):
             warnings.warn(
                 'No slices found in the requested time. Returning empty arr.')
-- 
2.43.0


From 422fd2317c92d528712c4bcc5e8cf1123308ce67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:50 +0000
Subject: [PATCH 26/91] fix: taper the center of matrices that do not reach to
 both sides of it

---
 src/seismic/monitor/post_corr_process.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 4965bd9..56efae4 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -586,17 +586,21 @@ def corr_mat_taper_center(
     taper[-slope_length:] = tap[:slope_length]
 
     # calculate start end end points of the taper
-    start = int(-stats['start_lag']*stats['sampling_rate'] - length/2)
+    start = int(np.floor(np.round(
+        -stats['start_lag']*stats['sampling_rate'] - length/2, 6)))
+    end = start + length + 1
+    if end <= 0 or start >= stats['npts']:
+        # the center is not part of the matrix
+        return data
     if start < 0:
         taper = taper[np.absolute(start):]
         start = 0
 
-    end = start + length
     if end > stats['npts']:
         end = stats['npts']
         taper = taper[0:end - start]
     # apply taper
-    data[:, start:end + 1] *= \
+    data[:, start:end] *= \
         np.tile(np.atleast_2d(taper), (data.shape[0], 1))
 
     return data
-- 
2.43.0


From f7d60c10d70547cec070ea5759033d8bd97df567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:03 +0000
Subject: [PATCH 27/91] fix: index a correlation matrix with numpy integers

---
 src/seismic/correlate/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 0ea02ad..47f244c 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -82,7 +82,7 @@ class CorrBulk(object):
     def __getitem__(self, item):
         list_keys = ['corr_start', 'corr_end', 'location', 'channel']
         stats_out = deepcopy(self.stats)
-        if isinstance(item, int):
+        if isinstance(item, (int, np.integer)):
             for key in list_keys:
                 value = stats_out[key]
                 if isinstance(value, list) or isinstance(value, np.ndarray):
-- 
2.43.0


From b81dcb24897782034d1304913004125ed1519f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:03 +0000
Subject: [PATCH 28/91] fix: resample a correlation matrix without rows

---
 src/seismic/monitor/post_corr_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 56efae4..c4c929d 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -285,7 +285,7 @@ def corr_mat_resample(
 
     # labels of the rows, those of the first measurement in the bin
     labels = {
-        k: [stats[k][0]]*len(stime) for k in ('location', 'channel')
+        k: (stats[k][:1] or [''])*len(stime) for k in ('location', 'channel')
         if isinstance(stats.get(k), list) and len(stats[k]) == len(otime)}
 
     for ii in range(len(stime)):
-- 
2.43.0


From df9326a4b9af2fd8225839a43667047f353be367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:41 +0000
Subject: [PATCH 29/91] fix: median reference traces with correlations without
 data

---
 src/seismic/monitor/post_corr_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index c4c929d..365caed 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -768,7 +768,7 @@ def corr_mat_extract_trace(
     elif method == 'median':
         mm = np.ma.masked_array(
             ndata, np.isnan(ndata))
-        out = np.median(mm, 0).filled(np.nan)
+        out = np.ma.median(mm, axis=0).filled(np.nan)
     elif method == 'norm_mean':
         # normalize the matrix
         ndata = corr_mat_normalize(ndata, stats, normtype='absmax')
-- 
2.43.0


From e4e4e2874a82ee60e5c30ab055cd92e6c5cf4a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:32 +0000
Subject: [PATCH 30/91] fix: averages of velocity changes with partly missing
 similarities

---
 src/seismic/monitor/dv.py       |  4 ++-
 src/seismic/monitor/monitor.py  | 61 +++++++++++++++++++++------------
 src/seismic/utils/miic_utils.py | 15 ++++++++
 3 files changed, 57 insertions(+), 23 deletions(-)

diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index 72dd140..0afb6bc 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -218,7 +218,9 @@ class DV(object):
         # Compute the dependencies again
         self.corr = np.nanmax(self.sim_mat, axis=1)
         self.value = self.second_axis[
-            np.argmax(np.nan_to_num(self.sim_mat), axis=1)]
+            mu.nan_argmax(self.sim_mat, axis=1)].astype(float)
+        self.avail = ~np.isnan(self.corr)
+        self.value[~self.avail] = np.nan
         return self
 
 
diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 0e9efc4..a3ec783 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -28,7 +28,7 @@ from tqdm import tqdm
 from seismic.db.corr_hdf5 import CorrelationDataBase
 from seismic.monitor.dv import DV, read_dv
 from seismic.monitor.wfc import WFC
-from seismic.utils.miic_utils import log_lvl
+from seismic.utils.miic_utils import log_lvl, nan_argmax
 
 
 class Monitor(object):
@@ -883,8 +883,8 @@ def correct_dv_shift(
         raise ValueError('Method has to be either mean or median')
     roll = int(round(-shift/(dv0.second_axis[1]-dv0.second_axis[0])))
     dv0.sim_mat = np.roll(dv0.sim_mat, (roll, 0))
-    dv0.value = dv0.second_axis[
-        np.nanargmax(np.nan_to_num(dv0.sim_mat), axis=1)]
+    dv0.value = dv0.second_axis[nan_argmax(dv0.sim_mat, axis=1)].astype(float)
+    dv0.value[~dv0.avail] = np.nan
     return dv0, dv1
 
 
@@ -936,6 +936,14 @@ def correct_time_shift_several(dvs: List[DV], method: str, n_overlap: int):
                     f'{dv_r.stats.id}.')
 
 
+def _is_average(dv: DV) -> bool:
+    """
+    Checks whether the dv itself is an average of several dvs.
+    """
+    s = dv.stats
+    return any(c in ('av', 'geoav') for c in (s.network, s.station, s.channel))
+
+
 def average_components_mem_save(
         dvs: Generator[DV, None, None], save_scatter: bool = True) -> DV:
     """
@@ -959,21 +967,24 @@ def average_components_mem_save(
     statsl = []
     corrs = []
     stretches = []
-    for ii, dv in enumerate(dvs):
-        if ii == 0:
+    method = None
+    for dv in dvs:
+        if method is None:
+            method = dv.method
+        if dv.method != method:
+            raise TypeError('DV has to be computed with the same method.')
+        if _is_average(dv):
+            warnings.warn('Averaging of averaged dvs not allowed. Skipping dv')
+            continue
+        if not len(statsl):
             sim_mat_sum = np.zeros_like(dv.sim_mat)
-            n_stat = np.zeros_like(dv.corr)
+            n_sim = np.zeros(dv.sim_mat.shape, dtype=int)
+            n_stat = np.zeros(dv.corr.shape, dtype=int)
 
             stats = deepcopy(dv.stats)
             strvec = dv.second_axis
             value_type = dv.value_type
-            method = dv.method
             dv_processing = dv.dv_processing
-        if dv.method != method:
-            raise TypeError('DV has to be computed with the same method.')
-        if 'av' in dv.stats.channel+dv.stats.network+dv.stats.station:
-            warnings.warn('Averaging of averaged dvs not allowed. Skipping dv')
-            continue
         if dv.sim_mat.shape != sim_mat_sum.shape or any(
                 dv.second_axis != strvec):
             warnings.warn(
@@ -984,16 +995,19 @@ def average_components_mem_save(
             )
             continue
         sim_mat_sum += np.nan_to_num(dv.sim_mat)
-        n_stat[~np.isnan(dv.value)] += 1
+        n_sim += ~np.isnan(dv.sim_mat)
+        n_stat += dv.avail
         if save_scatter:
             corrs.append(dv.corr)
             stretches.append(dv.value)
         statsl.append(dv.stats)
-    # Now inf where it was nan before
-    av_sim_mat = (sim_mat_sum.T/n_stat).T
-    av_sim_mat[np.isinf(av_sim_mat)] = np.nan
+    if not len(statsl):
+        raise ValueError('No dvs that can be averaged.')
+    # nan where it was nan in all dvs
+    av_sim_mat = np.full_like(sim_mat_sum, np.nan)
+    np.divide(sim_mat_sum, n_sim, out=av_sim_mat, where=n_sim > 0)
     # Now we would have to recompute the dv value and corr value
-    iimax = np.nanargmax(np.nan_to_num(av_sim_mat), axis=1)
+    iimax = nan_argmax(av_sim_mat, axis=1)
     corr = np.nanmax(av_sim_mat, axis=1)
     dt = strvec[iimax]
     dt[np.isnan(corr)] = np.nan
@@ -1049,11 +1063,12 @@ def average_components(
     for dv in dvs:
         if dv.method != dvs[0].method:
             raise TypeError('DV has to be computed with the same method.')
-        if 'av' in dv.stats.channel+dv.stats.network+dv.stats.station:
+        if _is_average(dv):
             warnings.warn('Averaging of averaged dvs not allowed. Skipping dv')
             continue
-        if dv.sim_mat.shape != dvs[0].sim_mat.shape or any(
-                dv.second_axis != dvs[0].second_axis):
+        if len(dv_use) and (
+            dv.sim_mat.shape != dv_use[0].sim_mat.shape or any(
+                dv.second_axis != dv_use[0].second_axis)):
             warnings.warn(
                 'The shapes of the similarity matrices of the input DVs '
                 + 'vary. Make sure to compute the dvs with the same parameters'
@@ -1062,6 +1077,8 @@ def average_components(
             )
             continue
         dv_use.append(dv)
+    if not len(dv_use):
+        raise ValueError('No dvs that can be averaged.')
     # Correct shift
     if correct_shift:
         correct_time_shift_several(
@@ -1069,7 +1086,7 @@ def average_components(
             n_overlap=correct_shift_overlap)
     av_sim_mat = np.nanmean([dv.sim_mat for dv in dv_use], axis=0)
     # Now we would have to recompute the dv value and corr value
-    iimax = np.nanargmax(np.nan_to_num(av_sim_mat), axis=1)
+    iimax = nan_argmax(av_sim_mat, axis=1)
     corr = np.nanmax(av_sim_mat, axis=1)
     strvec = dv_use[0].second_axis
     dt = strvec[iimax]
@@ -1130,7 +1147,7 @@ def average_dvs_by_coords(
     dv_filt = []
     for dv in dvs:
         s = dv.stats
-        if s.channel == 'av':
+        if _is_average(dv):
             warnings.warn('Averaging of averaged dvs not allowed. Skipping dv')
             continue
         if all((
diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index e7f9136..29f6c50 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -391,6 +391,21 @@ def nan_moving_av(
     return data_smooth.swapaxes(0, axis)
 
 
+def nan_argmax(data: np.ndarray, axis: int = -1) -> np.ndarray:
+    """
+    Indices of the maximum values along an axis, disregarding the nans
+    (0 where there are only nans).
+
+    :param data: Array to search
+    :type data: np.ndarray
+    :param axis: Axis to search along, defaults to -1
+    :type axis: int, optional
+    :return: The indices
+    :rtype: np.ndarray
+    """
+    return np.argmax(np.where(np.isnan(data), -np.inf, data), axis=axis)
+
+
 def stream_require_dtype(st: Stream, dtype: type) -> Stream:
     """
     Often it might make sense to change the data type of seismic data before
-- 
2.43.0


From f8ce55769850b92e3d59917fc156e77b094bad95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:35 +0000
Subject: [PATCH 31/91] fix: use all common samples to correct the shift
 between velocity changes

---
 src/seismic/monitor/monitor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index a3ec783..8878a49 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -869,6 +869,8 @@ def correct_dv_shift(
         stop = len(dv0.value) - 1
     if start < 0:
         start = 0
+    # stop is included
+    stop += 1
     dv0c = dv0.corr[start:stop]
     dv0v = dv0.value[start:stop]
     dv1c = dv1.corr[start:stop]
-- 
2.43.0


From 64ecaddcdfcf2cc2b89236bc9797e48feef94ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:41 +0000
Subject: [PATCH 32/91] fix: group velocity changes by their own station
 combination when averaging a folder

---
 src/seismic/monitor/monitor.py | 89 ++++++++++++++++------------------
 1 file changed, 41 insertions(+), 48 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 8878a49..0e716f3 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -18,7 +18,7 @@ from typing import Generator, List, Tuple
 import warnings
 import yaml
 import fnmatch
-from glob import glob
+from glob import escape, glob
 
 from mpi4py import MPI
 import numpy as np
@@ -389,72 +389,59 @@ class Monitor(object):
             'crossstations', 'betweenstations', 'betweencomponents')
         if method.lower() not in av_methods:
             raise ValueError('Averaging method not in %s.' % str(av_methods))
-        infiles = glob(os.path.join(self.outdir, '*.npz'))
+        infiles = sorted(glob(os.path.join(escape(self.outdir), '*.npz')))
         if method.lower() == 'autocomponents':
             ch = 'av-auto'
         elif method.lower() in ('betweencomponents', 'crosscomponents'):
             ch = 'av-xc'
         else:
             ch = 'av'
-        while len(infiles):
-            # Find files belonging to same station
-            pat = '.'.join(infiles[0].split('.')[:-2]) + '*'
-            filtfil = fnmatch.filter(infiles, pat)
-            fffil = []  # Second filter
-            for f in filtfil:
-                if ch in f.split('.'):
-                    # Is already computed for this station
-                    # So let's remove all of them from the initial list
-                    for ff in filtfil:
-                        try:
-                            infiles.remove(ff)
-                        except ValueError:
-                            # Has already been removed by one of the other
-                            # check
-                            pass
-                    filtfil.clear()
-                    fffil.clear()
-                    self.logger.debug('Skipping already averaged dv...%s' % f)
-                    break
-                elif 'av' in f:
+        # Find files belonging to same station combination
+        groups = {}
+        for f in infiles:
+            codes = os.path.basename(f)[:-len('.npz')].split('.')
+            if len(codes) != 3 or not codes[0].startswith('DV-'):
+                # Not the dv of a station combination
+                continue
+            groups.setdefault('.'.join(codes[:-1]), []).append((f, codes))
+        for files in groups.values():
+            if any(codes[-1] == ch for _, codes in files):
+                # Is already computed for this station
+                self.logger.debug(
+                    'Skipping already averaged dv...%s' % files[0][0])
+                continue
+            dvs = []
+            for f, codes in files:
+                networks, stations, components = (
+                    code.split('-') for code in codes)
+                networks = networks[1:]
+                if any(len(x) != 2 for x in (networks, stations, components)) \
+                        or components[0] == 'av':
                     # computed by another averaging method
-                    infiles.remove(f)
                     continue
-                components = f.split('.')[-2].split('-')
-                stations = f.split('.')[-3].split('-')
+                same_stat = networks[0] == networks[1] \
+                    and stations[0] == stations[1]
+                same_comp = components[0] == components[1]
                 if method.lower() == 'autocomponents':
                     # Remove those from combined channels
-                    if components[0] != components[1] \
-                            or stations[0] != stations[1]:
-                        infiles.remove(f)
-                        continue
+                    use = same_stat and same_comp
                 elif method.lower() in (
                         'betweencomponents', 'crosscomponents'):
                     # Remove those from equal channels
-                    components = f.split('.')[-2].split('-')
-                    if components[0] == components[1] \
-                            or stations[0] != stations[1]:
-                        infiles.remove(f)
-                        continue
+                    use = same_stat and not same_comp
                 elif method.lower() == 'stationwide':
-                    if stations[0] != stations[1]:
-                        infiles.remove(f)
-                        continue
-                elif method.lower() in ('betweenstations', 'crossstations'):
-                    if stations[0] == stations[1]:
-                        infiles.remove(f)
-                        continue
-                fffil.append(f)
-            dvs = []
-            for f in fffil:
+                    use = same_stat
+                else:
+                    # betweenstations, crossstations
+                    use = not same_stat
+                if not use:
+                    continue
                 try:
                     dvs.append(read_dv(f))
                 except Exception:
                     self.logger.exception(
                         'An unexpected error has ocurred '
                         + 'while reading file %s.' % f)
-                # Remove so they are not processed again
-                infiles.remove(f)
             if not len(dvs):
                 continue
             elif len(dvs) == 1:
@@ -463,7 +450,13 @@ class Monitor(object):
                     % (dvs[0].stats.channel, dvs[0].stats.network,
                         dvs[0].stats.station))
                 continue
-            dv_av = average_components(dvs)
+            try:
+                dv_av = average_components(dvs)
+            except Exception:
+                self.logger.exception(
+                    'The dvs of station %s.%s could not be averaged.'
+                    % (dvs[0].stats.network, dvs[0].stats.station))
+                continue
             outf = os.path.join(
                 self.outdir, 'DV-%s.%s.%s' % (
                     dv_av.stats.network, dv_av.stats.station, ch))
-- 
2.43.0


From a9bff0f487b9f97a9ebb353b1ab7567e9086e986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:41 +0000
Subject: [PATCH 33/91] fix: reading results with a single time or with an open
 lapse window

---
 src/seismic/monitor/dv.py  | 19 +++++++++++++++----
 src/seismic/monitor/wfc.py | 17 +++++++++--------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index 0afb6bc..6d9e71b 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -19,6 +19,7 @@ from zipfile import BadZipFile
 
 import matplotlib.pyplot as plt
 import numpy as np
+from obspy import UTCDateTime
 
 from seismic.plot.plot_dv import plot_dv
 from seismic.utils import miic_utils as mu
@@ -110,7 +111,9 @@ class DV(object):
             kwargs.update({
                 'freq_min': self.dv_processing['freq_min'],
                 'freq_max': self.dv_processing['freq_max'],
-                'tw_len': self.dv_processing['tw_len'],
+                # None would have to be pickled
+                'tw_len': np.nan if self.dv_processing['tw_len'] is None
+                else self.dv_processing['tw_len'],
                 'tw_start': self.dv_processing['tw_start'],
                 'sides': self.dv_processing.get('sides', 'unknown'),
                 'aligned': self.dv_processing.get('aligned', False)
@@ -245,7 +248,12 @@ def read_dv(path: str) -> DV:
                 f'No files that adhere the pattern {path} found.')
         return dvl
     loaded = np.load(path)
-    stats = CorrStats(mu.load_header_from_np_array(loaded))
+    header = mu.load_header_from_np_array(loaded)
+    for k in ('corr_start', 'corr_end'):
+        # The header loader does not return lists for single times
+        if isinstance(header.get(k), UTCDateTime):
+            header[k] = [header[k]]
+    stats = CorrStats(header)
     # to check that compatibility works
     vt = loaded['vt_array']
     while not isinstance(vt, str):
@@ -259,8 +267,11 @@ def read_dv(path: str) -> DV:
             freq_max=float(loaded['freq_max']),
             tw_start=float(loaded['tw_start']),
             tw_len=float(loaded['tw_len']))
-        dv_processing['sides'] = loaded.get('sides', 'unknown')
-        dv_processing['aligned'] = loaded.get('aligned', False)
+        if np.isnan(dv_processing['tw_len']):
+            dv_processing['tw_len'] = None
+        for k, default in (('sides', 'unknown'), ('aligned', False)):
+            v = loaded.get(k, default)
+            dv_processing[k] = v.item() if isinstance(v, np.ndarray) else v
     except KeyError:
         dv_processing = {}
     return DV(
diff --git a/src/seismic/monitor/wfc.py b/src/seismic/monitor/wfc.py
index 9447c13..ea26fc5 100644
--- a/src/seismic/monitor/wfc.py
+++ b/src/seismic/monitor/wfc.py
@@ -15,6 +15,7 @@ from typing import List
 
 import numpy as np
 from matplotlib import pyplot as plt
+from obspy import UTCDateTime
 
 from seismic.correlate.stats import CorrStats
 from seismic.utils import miic_utils as mu
@@ -157,14 +158,14 @@ def read_wfc(path: str) -> WFC:
         else:
             stats[k] = v
     wfc_processing = {
-        'tw_start': stats['tw_start'],
-        'tw_len': stats['tw_len'],
-        'freq_min': stats['freq_min'],
-        'freq_max': stats['freq_max']
-    }
-    wfc = WFC(
-        d, stats=CorrStats(mu.load_header_from_np_array(stats)),
-        wfc_processing=wfc_processing)
+        k: stats[k].item()
+        for k in ('tw_start', 'tw_len', 'freq_min', 'freq_max')}
+    header = mu.load_header_from_np_array(stats)
+    for k in ('corr_start', 'corr_end'):
+        # The header loader does not return lists for single times
+        if isinstance(header.get(k), UTCDateTime):
+            header[k] = [header[k]]
+    wfc = WFC(d, stats=CorrStats(header), wfc_processing=wfc_processing)
     wfc.av = av
     wfc.mean = mean
     return wfc
-- 
2.43.0


From 82a158fe7bb1b8b83a0e53ff07cad301086fab2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:44 +0000
Subject: [PATCH 34/91] fix: find the correlations of all requested networks
 and stations

---
 src/seismic/monitor/monitor.py | 38 ++++++++++++++--------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 0e716f3..9e07682 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -759,36 +759,16 @@ def corr_find_filter(
     netlist = []
     statlist = []
     infiles = []
-    for f in glob(os.path.join(indir, '*-*.*-*.h5')):
-        matched = False
+    for f in glob(os.path.join(escape(indir), '*-*.*-*.h5')):
         f = os.path.basename(f)
         split = f.split('.')
 
         # Find the files that should actually be processed
         nsplit = split[0].split('-')
         ssplit = split[1].split('-')
-        if isinstance(net['network'], str) and not fnmatch.filter(
-                nsplit, net['network']) == nsplit:
+        if not _codes_requested(nsplit, net['network'])\
+                or not _codes_requested(ssplit, net['station']):
             continue
-        elif isinstance(net['network'], list):
-            # account for the case of wildcards in the network list
-            for n in net['network']:
-                if fnmatch.filter(nsplit, n) == nsplit:
-                    matched = True
-                    break
-            if not matched:
-                continue
-        if isinstance(net['station'], str) and not fnmatch.filter(
-                ssplit, net['station']) == ssplit:
-            continue
-        elif isinstance(net['station'], list):
-            # account for the case of wildcards in the station list
-            for s in net['station']:
-                if fnmatch.filter(ssplit, s) == ssplit:
-                    matched = True
-                    break
-            if not matched:
-                continue
 
         netlist.append(split[0])
         statlist.append(split[1])
@@ -796,6 +776,18 @@ def corr_find_filter(
     return netlist, statlist, infiles
 
 
+def _codes_requested(codes: List[str], request: str or List[str]) -> bool:
+    """
+    Whether each of the codes is named by the request (wildcards allowed).
+    """
+    if isinstance(request, str):
+        request = [request]
+    if not isinstance(request, list):
+        return True
+    return all(
+        any(fnmatch.fnmatchcase(c, r) for r in request) for c in codes)
+
+
 def correct_dv_shift(
     dv0: DV, dv1: DV, method: str = 'mean',
         n_overlap: int = 0) -> Tuple[DV, DV]:
-- 
2.43.0


From d59c03b6a5a4d5bac251f1fa7db123ba6fa4a2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 35/91] fix: velocity changes with an open lapse window

---
 src/seismic/monitor/monitor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 9e07682..b37c196 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -196,6 +196,8 @@ class Monitor(object):
             lts = cdb.get_corr_options()['corr_args']['lengthToSave']
 
         tw_start = self.options['dv']['tw_start']
+        # Travel distance
+        d = 'unknown'
 
         if self.options['dv']['compute_tt']:
             if not hasattr(cst[0].stats, 'dist'):
@@ -214,9 +216,9 @@ class Monitor(object):
                 self.logger.info(
                     f'Computed travel time for {network}.{station} is '
                     f'{tt} s. The assumed direct-line distance was {d} km.')
-        if lts < tw_start + self.options['dv']['tw_len']:
-            reqtw = tw_start + self.options[
-                'dv']['tw_len']
+        # If there is no length, the rest of the correlation is used
+        reqtw = tw_start + (self.options['dv']['tw_len'] or 0)
+        if lts < reqtw:
             raise ValueError(
                 'Requested lapse time window (time window start + time window'
                 f' length = {reqtw} contains segments after the Correlation'
-- 
2.43.0


From b32b1cc9725891fc3a92aea5806548ecc81aea4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 36/91] fix: failures with one correlation do not end bulk
 monitoring

---
 src/seismic/monitor/monitor.py | 53 ++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index b37c196..ac2579e 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -159,6 +159,27 @@ class Monitor(object):
                     netlist, statlist)]))
         return netlist, statlist, infiles
 
+    def _find_available_channels(self, tag: str) -> List[List[str]]:
+        """
+        Lists all channel combinations in the requested correlation files.
+
+        :param tag: Tag of the data in the files
+        :type tag: str
+        :return: list of [file, network, station, channel]
+        :rtype: List[List[str]]
+        """
+        plist = []
+        for f, n, s in zip(self.infiles, self.netlist, self.statlist):
+            try:
+                with CorrelationDataBase(f, mode='r') as cdb:
+                    ch = cdb.get_available_channels(tag, n, s)
+            except Exception as e:
+                # The other files can still be processed
+                self.logger.exception(f'{e} for file {f}.')
+                continue
+            plist.extend([f, n, s, c] for c in ch)
+        return plist
+
     def compute_velocity_change(
         self, corr_file: str, tag: str, network: str, station: str,
             channel: str, ref_trcs: np.ndarray = None):
@@ -340,12 +361,7 @@ class Monitor(object):
         tag = 'subdivision'
         # get number of available channel combis
         if self.rank == 0:
-            plist = []
-            for f, n, s in zip(self.infiles, self.netlist, self.statlist):
-                with CorrelationDataBase(f, mode='r') as cdb:
-                    ch = cdb.get_available_channels(
-                        tag, n, s)
-                    plist.extend([f, n, s, c] for c in ch)
+            plist = self._find_available_channels(tag)
         else:
             plist = None
         plist = self.comm.bcast(plist, root=0)
@@ -488,12 +504,7 @@ class Monitor(object):
         tag = 'subdivision'
         # get number of available channel combis
         if self.rank == 0:
-            plist = []
-            for f, n, s in zip(self.infiles, self.netlist, self.statlist):
-                with CorrelationDataBase(f, mode='r') as cdb:
-                    ch = cdb.get_available_channels(
-                        tag, n, s)
-                    plist.extend([f, n, s, c] for c in ch)
+            plist = self._find_available_channels(tag)
         else:
             plist = None
         plist = self.comm.bcast(plist, root=0)
@@ -506,12 +517,12 @@ class Monitor(object):
         wfcl = []
         for ii in tqdm(ind):
             corr_file, net, stat, cha = plist[ii]
-            for wfc in self.compute_waveform_coherence(
-                    corr_file, tag, net, stat, cha):
-                try:
+            try:
+                for wfc in self.compute_waveform_coherence(
+                        corr_file, tag, net, stat, cha):
                     wfcl.append(wfc)
-                except Exception as e:
-                    self.logger.exception(e)
+            except Exception as e:
+                self.logger.exception(f'{e} for file {corr_file}.')
 
         outdir = os.path.join(
             self.options['proj_dir'], self.options['wfc']['subdir'])
@@ -545,7 +556,13 @@ class Monitor(object):
                         wfc.wfc_processing['tw_len'] == tw_len
                     ])])
         for wfc_avl in wfcl_sub:
-            wfc = average_components_wfc(wfc_avl)
+            try:
+                wfc = average_components_wfc(wfc_avl)
+            except Exception as e:
+                self.logger.exception(
+                    f'{e} for {wfc_avl[0].stats.network}.'
+                    f'{wfc_avl[0].stats.station}.')
+                continue
             # Write files
             outf = os.path.join(outdir, 'WFC-%s.%s.%s.f%a-%a.tw%a-%a' % (
                 wfc.stats.network, wfc.stats.station, wfc.stats.channel,
-- 
2.43.0


From a17b788fa507edc90e03c1419bd6fbf3df30033f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 37/91] fix: scatter and counts of a read result are not part
 of its header

Reading a velocity change copied the first values of n_stat, corrs, and
stretches into the header. Coherences can be read with ? as well.
---
 src/seismic/monitor/wfc.py      | 2 +-
 src/seismic/utils/miic_utils.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/wfc.py b/src/seismic/monitor/wfc.py
index ea26fc5..a9b6f13 100644
--- a/src/seismic/monitor/wfc.py
+++ b/src/seismic/monitor/wfc.py
@@ -142,7 +142,7 @@ def read_wfc(path: str) -> WFC:
     :return: The WFC object.
     :rtype: WFC
     """
-    if '*' in path:
+    if '*' in path or '?' in path:
         return [read_wfc(f) for f in glob.glob(path, recursive=True)]
     loaded = np.load(path)
     d = {}
diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index 29f6c50..1158dd6 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -245,7 +245,8 @@ no_stats = [
     'data', 'tw_len', 'tw_start', 'freq_min', 'freq_max', 'aligned', 'subdir',
     'plot_vel_change', 'start_date', 'end_date', 'win_len', 'date_inc',
     'sides', 'compute_tt', 'rayleigh_wave_velocity', 'stretch_range',
-    'stretch_steps', 'dt_ref', 'preprocessing', 'postprocessing']
+    'stretch_steps', 'dt_ref', 'preprocessing', 'postprocessing',
+    'stretches', 'corrs', 'n_stat']
 
 
 def save_header_to_np_array(stats: Stats) -> dict:
-- 
2.43.0


From c56ee95eb8ef22aa4413bb7aeb5ddd95e9b6ce16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 38/91] fix: store waveforms with gaps and single samples

---
 src/seismic/trace_data/waveform.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index c9d49f9..aa3b644 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -347,10 +347,12 @@ class Store_Client(object):
         """
         Write stream to local SDS structure.
         """
-        # write the data
-        for tr in st:
+        # write the data, gaps cannot be written
+        for tr in st.split():
             starttime = tr.stats.starttime
-            while starttime < tr.stats.endtime:
+            # at least once: the trace may consist of a single sample
+            while starttime < tr.stats.endtime\
+                    or starttime == tr.stats.starttime:
                 endtime = UTCDateTime(
                     starttime.year, starttime.month, starttime.day) + 86400*1.5
                 endtime = UTCDateTime(endtime.year, endtime.month, endtime.day)
@@ -375,7 +377,7 @@ class Store_Client(object):
             if not os.path.exists(os.path.dirname(filename)):
                 os.makedirs(os.path.dirname(filename))
             rst = tr
-        rst.write(filename, format='MSEED')
+        rst.split().write(filename, format='MSEED')
 
     def _write_inventory(self, ninv: Inventory):
         """write the inventory information"""
-- 
2.43.0


From 38364f67ac01af248cbf2ac17e4395211179c783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 39/91] fix: keep the known channels of a station when its
 inventory is extended

And store nothing if the client is read only.
---
 src/seismic/trace_data/waveform.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index aa3b644..4dfab2d 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -387,9 +387,13 @@ class Store_Client(object):
             self.inventory += ninv
         else:
             self.inventory = ninv
-        fname = os.path.join(
-            self.inv_dir, f'{ninv[0].code}.{ninv[0][0].code}.xml')
-        ninv.write(fname, format="STATIONXML", validate=True)
+        if self.read_only:
+            return
+        for net, stat in {(n.code, s.code) for n in ninv for s in n}:
+            fname = os.path.join(self.inv_dir, f'{net}.{stat}.xml')
+            # Other channels of this station may be known already
+            self.inventory.select(network=net, station=stat).write(
+                fname, format="STATIONXML", validate=True)
 
     def _generate_time_windows(
         self, network: str, station: str, channel: str, starttime: UTCDateTime,
-- 
2.43.0


From de894458e7c46455d33737266102294ac63489b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 40/91] fix: listings of an archive with other or empty
 directories

---
 src/seismic/trace_data/waveform.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 4dfab2d..6728ca3 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -158,7 +158,7 @@ class Store_Client(object):
             os.path.join(self.sds_root, '????', network, '*'))
         statlist = []
         for path in oslist:
-            if not isinstance(eval(path.split(os.path.sep)[-3]), int):
+            if not path.split(os.path.sep)[-3].isdigit():
                 continue
             # Add all network and station combinations to list
             code = path.split(os.path.sep)[-2:]
@@ -809,20 +809,18 @@ def get_day_in_folder(
     :rtype: UTCDateTime
     """
     if type == 'start':
-        i0 = 0
         ii = 1
     elif type == 'end':
-        i0 = -1
         ii = -1
     else:
         raise NotImplementedError('Type has to be either start or end.')
     julday = None
-    while not julday:
+    for year in dirlist[::ii]:
         # if the folder is empty julday will stay False
-        year = dirlist[i0]
         julday = [i.split('.')[-1] for i in glob.glob(
             os.path.join(root, year, network, station, channel, '*'))]
-        i0 += ii
+        if julday:
+            break
     if not julday:
         raise FileNotFoundError(
             'Station %s.%s not in database' % (network, station))
-- 
2.43.0


From ad41423cee378c9da3c5ffabdae8231a2bc82936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 41/91] fix: samples at the edge of a file in FS_Client

---
 src/seismic/trace_data/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 6728ca3..c6783f0 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -656,7 +656,7 @@ def _read_filepattern(
             print('%s from %s to %s\n' % (f, start, end))
     st = Stream()
     for ind, fname in enumerate(flist):
-        if (starttimes[ind] < endtime) and (endtimes[ind] > starttime):
+        if (starttimes[ind] <= endtime) and (endtimes[ind] >= starttime):
             if trim:
                 st += read(
                     fname, starttime=UTCDateTime(starttime),
-- 
2.43.0


From f2ca28a57ceb51f902c92e897d6d6c38b5e0c5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:03 +0000
Subject: [PATCH 42/91] fix: correlations do not use masked data

The mask was ignored when the traces are put into a matrix.
---
 src/seismic/correlate/correlate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 54eb249..8c0c04a 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -916,6 +916,8 @@ def st_to_np_array(st: Stream, npts: int) -> Tuple[np.ndarray, Stream]:
     A = np.zeros((st.count(), npts), dtype=np.float32)
     for ii, tr in enumerate(st):
         A[ii, :tr.stats.npts] = tr.data
+        # else the assignment would ignore the mask
+        A[ii, :tr.stats.npts][np.ma.getmaskarray(tr.data)] = np.nan
         del tr.data  # Not needed any more, just uses up RAM
     return A, st
 
-- 
2.43.0


From 7e2e70733bb83106ddff09289e22c9e2c04d57ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:03 +0000
Subject: [PATCH 43/91] fix: mask intervals that cover a trace or end at its
 first or last sample

---
 src/seismic/correlate/preprocessing_stream.py | 30 ++++---------------
 1 file changed, 5 insertions(+), 25 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_stream.py b/src/seismic/correlate/preprocessing_stream.py
index 215dcad..f42f5a7 100644
--- a/src/seismic/correlate/preprocessing_stream.py
+++ b/src/seismic/correlate/preprocessing_stream.py
@@ -273,40 +273,20 @@ def trace_mask_at_utc(
     """
     start = tr.stats.starttime
     end = tr.stats.endtime
-    # starts in trace
-    ii = (starts < end) * (starts > start)
-    # ends in trace
-    jj = (ends < end) * (ends > start)
-
     mask = np.zeros(tr.data.shape, dtype=bool)
 
-    # masks that are completlely in trace
-    kk = jj*ii
-    for s, e in zip(starts[kk], ends[kk]):
+    for s, e in zip(starts, ends):
+        if s > end or e < start:
+            # mask is not in trace
+            continue
         # Find start-index in trace
-        t = s-start
+        t = max(s, start)-start
         ns = int(np.floor(tr.stats.sampling_rate*t))
         # find stop index
         t = e-start
         ne = int(np.ceil(tr.stats.sampling_rate*t))+1
         mask[ns:ne] = True
 
-    # only start of mask in trace
-    ll = ii * ~jj
-    for s in starts[ll]:
-        # Find start-index in trace
-        t = s-start
-        ns = int(np.floor(tr.stats.sampling_rate*t))
-        mask[ns:] = True
-
-    # only end of mask in trace
-    ll = ~ii * jj
-    for e in ends[ll]:
-        # Find start-index in trace
-        t = e-start
-        ne = int(np.ceil(tr.stats.sampling_rate*t))+1
-        mask[:ne] = True
-
     if reverse:
         mask = ~mask
     # Mask the array
-- 
2.43.0


From e79d66e7bbda724c92b2a4dd948d526887d7adb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:03 +0000
Subject: [PATCH 44/91] fix: tapers of integer data

---
 src/seismic/correlate/preprocessing_stream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/preprocessing_stream.py b/src/seismic/correlate/preprocessing_stream.py
index f42f5a7..b4ac74c 100644
--- a/src/seismic/correlate/preprocessing_stream.py
+++ b/src/seismic/correlate/preprocessing_stream.py
@@ -103,7 +103,8 @@ def cos_taper(
     if tl_n * 2 > tr.stats.npts:
         raise ValueError(
             'Taper Length * 2 has to be smaller or equal to trace\'s length.')
-    taper = np.ones_like(tr.data)
+    taper = np.ones_like(
+        tr.data, dtype=np.result_type(tr.data.dtype, np.float32))
     tap = np.sin(np.linspace(0, np.pi, tl_n*2))
     taper[:tl_n] = tap[:tl_n]
     taper[-tl_n:] = tap[-tl_n:]
-- 
2.43.0


From 22242d71d9b245655eaef28d9d3653201a74cc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:03 +0000
Subject: [PATCH 45/91] fix: interpolation of traces without data or with
 integer data

---
 src/seismic/utils/miic_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index 1158dd6..8029720 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -527,6 +527,9 @@ def interpolate_gaps(A: np.ndarray, max_gap_len: int = -1) -> np.ndarray:
 
     x = np.arange(len(A))
     for mstart, ml in zip(maskstart, masklen):
+        if mstart == 0 or mstart+ml == len(A):
+            # No data to interpolate from on one side
+            continue
         if ml > max_gap_len:
             warnings.warn(
                 'Gap too large. Not interpolating.', UserWarning)
-- 
2.43.0


From 517eff591cc8a8eaf0ff30c98a24a739f45869d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:03 +0000
Subject: [PATCH 46/91] fix: interpolate gaps between the traces of a channel

---
 src/seismic/utils/miic_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index 8029720..d94e5d6 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -489,6 +489,8 @@ def gap_handler(
     """
     # take care of overlaps
     st = st.merge(method=-1)
+    # gaps between traces can only be interpolated within one trace
+    st = st.merge()
     # 1. try to interpolate gaps
     st = interpolate_gaps_st(st, max_gap_len=max_interpolation_length)
 
-- 
2.43.0


From 6fdeb69d8a155059f539db4154ca99a5bc5c392c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:03 +0000
Subject: [PATCH 47/91] fix: data with a lower sampling rate than requested in
 part of a read window

---
 src/seismic/correlate/correlate.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 8c0c04a..2cb6f5a 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -641,6 +641,13 @@ class Correlator(object):
                         f'Downsampling failed for {net}.{stat} and time'
                         f' {t}.\nThe Original Error Message was {e}.')
                     continue
+                # Traces with a lower sampling rate are not resampled
+                for tr in stext:
+                    if not np.isclose(tr.stats.sampling_rate, sampling_rate):
+                        self.logger.error(
+                            f'Skipping {tr}. Its sampling rate differs from '
+                            'the requested one.')
+                        stext.remove(tr)
                 # The actual data in the mseeds was changed from int to
                 # float64 now,
                 # Save some space by changing it back to 32 bit (most of the
-- 
2.43.0


From 69c7fe452a5e7dcb553abda5e8521bb84b6ba7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:57 +0000
Subject: [PATCH 48/91] fix: spectral whitening with traces without data

One zero in any spectrum left all traces of the process unwhitened.
---
 src/seismic/correlate/preprocessing_fd.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_fd.py b/src/seismic/correlate/preprocessing_fd.py
index f2f59d8..627270b 100644
--- a/src/seismic/correlate/preprocessing_fd.py
+++ b/src/seismic/correlate/preprocessing_fd.py
@@ -106,14 +106,10 @@ def spectralWhitening(B: np.ndarray, args: dict, params) -> np.ndarray:
             for ii in np.arange(0, B.shape[0], 3):
                 absB[ii:ii+3, :] = np.tile(
                     np.atleast_2d(np.mean(absB[ii:ii+3, :], axis=0)), [3, 1])
-    with np.errstate(invalid='raise'):
-        try:
-            B = np.true_divide(B, absB)
-        except FloatingPointError as e:
-            errargs = np.argwhere(absB == 0)
-            # Report error where there is zero divides for a non-zero freq
-            if not np.all(errargs[:, 0] == 0):
-                logging.debug(f'{e} {errargs}')
+    # Zeros (e.g., traces without data) remain zero
+    if np.any(absB[..., 1:] == 0):
+        logging.debug(f'Zeros in spectrum: {np.argwhere(absB == 0)}')
+    B = np.divide(B, absB, out=np.zeros_like(B), where=absB != 0)
     # Set zero frequency component to zero
     B[:, 0] = 0.j
 
-- 
2.43.0


From f1f7bc4bbf918f113d31bd6f819e115651d05759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:42 +0000
Subject: [PATCH 49/91] fix: mute with tapers of any length

Depending on the number of samples of the taper, the rounded sum of the
weights was below 1 and everything was muted, or samples above the threshold
kept a part of their amplitude (even numbers).
---
 src/seismic/correlate/preprocessing_td.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index db8c092..b8aabd8 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -228,16 +228,19 @@ def mute(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
     mask[D > np.tile(thres, (D.shape[1], 1)).T] = 0
     # extend the muted segments to make sure the whole segment is zero after
     if args['extend_gaps']:
-        tap = np.ones(ntap)/ntap
+        # an odd number of ones, so that they reach as far as the taper does
+        tap = np.ones(2*(ntap//2)+1)
         for ind in range(A.shape[0]):
             mask[ind, :] = np.convolve(mask[ind, :], tap, mode='same')
         nmask = np.ones_like(D)
-        nmask[mask < 1.] = 0
+        nmask[mask < len(tap)] = 0
     else:
         nmask = mask
 
     # apply taper
     tap = 2. - (np.cos(np.arange(ntap, dtype=float)/ntap*2.*np.pi) + 1.)
+    if ntap == 1:
+        tap = np.ones(1)
     tap /= ntap
     for ind in range(A.shape[0]):
         nmask[ind, :] = np.convolve(nmask[ind, :], tap, mode='same')
-- 
2.43.0


From c04cb06d3c691acf9a137026d2084b28e362a416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:42 +0000
Subject: [PATCH 50/91] fix: detrend with method scipy

The argument method was handed to scipy.signal.detrend (TypeError).
---
 src/seismic/correlate/preprocessing_td.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index b8aabd8..6339649 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -89,6 +89,8 @@ def detrend_scipy(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
 
     .. seealso:: :func:`scipy.signal.detrend` for input arguments
     """
+    # selects this function, see detrend
+    args = {k: v for k, v in args.items() if k != 'method'}
     if np.all(np.isnan(A)):
         return A
     for ii in range(A.shape[0]):
-- 
2.43.0


From afc559ad7c91d6dbf1f03cba990986adba3a9be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:42 +0000
Subject: [PATCH 51/91] fix: zero padding to avoid wrap around with float
 sampling rates

The shape of the padding was a float (TypeError).
---
 src/seismic/correlate/preprocessing_td.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index 6339649..f2190ff 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -480,7 +480,7 @@ def zeroPadding(A: np.ndarray, args: dict, params: dict, axis=1) -> np.ndarray:
     if args['type'] == 'nextFastLen':
         N = next_fast_len(npts)
     elif args['type'] == 'avoidWrapAround':
-        N = npts + params['sampling_rate'] * params['lengthToSave']
+        N = int(npts + params['sampling_rate'] * params['lengthToSave'])
     elif args['type'] == 'avoidWrapFastLen':
         N = next_fast_len(int(
             npts + params['sampling_rate'] * params['lengthToSave']))
-- 
2.43.0


From ca4a0bb4ee1eb223f36f66b674e9e1a7707414d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:42 +0000
Subject: [PATCH 52/91] fix: zero phase filters of matrices in preprocessing

The second pass of the filter ran over the traces in reverse order instead of
over the time reversed traces.
---
 src/seismic/correlate/preprocessing_td.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index f2190ff..755969f 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -432,6 +432,10 @@ def TDfilter(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
     func = func_from_str('obspy.signal.filter.%s' % args['type'])
     args = deepcopy(args)
     args.pop('type')
+    if A.ndim == 2 and args.get('zerophase'):
+        # obspy would turn the order of the traces instead of the time
+        B = [func(a, df=params['sampling_rate'], **args) for a in A]
+        return np.array(B).reshape(A.shape)
     A = func(A, df=params['sampling_rate'], **args)
     return A
 
-- 
2.43.0


From 142498f67d5da1d3bb800ee6fead0be332b0b3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:42 +0000
Subject: [PATCH 53/91] fix: sign bit normalization of spectra of an odd number
 of samples

The inverse transform assumed an even number, which stretches the traces.
---
 src/seismic/correlate/preprocessing_fd.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_fd.py b/src/seismic/correlate/preprocessing_fd.py
index 627270b..fbb5ec4 100644
--- a/src/seismic/correlate/preprocessing_fd.py
+++ b/src/seismic/correlate/preprocessing_fd.py
@@ -66,12 +66,17 @@ def FDsignBitNormalization(
     :type args: dictionary
     :param args: not used in this function
     :type params: dictionary
-    :param params: not used in this function
+    :param params: params['freqs'] contains an array with the freqency values
+        of the samples in `B` and params['sampling_rate'] the sampling rate of
+        the traces. If not given, the traces have an even number of samples.
 
     :rtype: numpy.ndarray
     :return: frequency transform of the 1-bit normalized data
     """
-    B = np.fft.irfft(B)
+    npts = None
+    if 'sampling_rate' in params and len(params.get('freqs', [])) > 1:
+        npts = int(round(params['sampling_rate']/params['freqs'][1]))
+    B = np.fft.irfft(B, npts)
     # np.sign only takes the real part into account
     C = np.sign(B)
     return np.fft.rfft(C)
-- 
2.43.0


From 70987aa0aa398cad25a2e689115b436f04084390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:57 +0000
Subject: [PATCH 54/91] fix: joint normalization on several processes

The sets of three traces that are normalized jointly were torn apart by the
distribution of the traces (AssertionError, or sets of other traces).
---
 src/seismic/correlate/correlate.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 2cb6f5a..bc93369 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -775,7 +775,12 @@ class Correlator(object):
         # time domain processing
         # map of traces on processes
         ntrc = A.shape[0]
-        pmap = np.arange(ntrc)*self.psize/ntrc
+        items = np.arange(ntrc)
+        if any('joint_norm' in proc['args'] for proc in
+               self.options['corr_args']['FDpreProcessing']):
+            # sets of three traces have to stay on one process
+            items = items//3
+        pmap = items*self.psize/(items[-1] + 1)
         # This step was not in the original but is necessary for it to work?
         # maybe a difference in an old python/np version?
         pmap = pmap.astype(np.int32)
-- 
2.43.0


From a9880513ab665e3e39be818330e4ce98a3a4d36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:17 +0000
Subject: [PATCH 55/91] fix: zero padding for lags of a fractional number of
 samples

The number of saved samples is rounded up, the padding was rounded down: the
first saved lag could wrap around.
---
 src/seismic/correlate/preprocessing_td.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index 755969f..1a6983a 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -481,13 +481,15 @@ def zeroPadding(A: np.ndarray, args: dict, params: dict, axis=1) -> np.ndarray:
         ntrc = A.shape[axis-1]
     elif A.ndim == 1:
         ntrc = 1
+    if args['type'] in ('avoidWrapAround', 'avoidWrapFastLen'):
+        # samples of the longest lag that is saved
+        lag = int(np.ceil(params['lengthToSave'] * params['sampling_rate']))
     if args['type'] == 'nextFastLen':
         N = next_fast_len(npts)
     elif args['type'] == 'avoidWrapAround':
-        N = int(npts + params['sampling_rate'] * params['lengthToSave'])
+        N = npts + lag
     elif args['type'] == 'avoidWrapFastLen':
-        N = next_fast_len(int(
-            npts + params['sampling_rate'] * params['lengthToSave']))
+        N = next_fast_len(npts + lag)
     else:
         raise ValueError("type '%s' of zero padding not implemented" %
                          args['type'])
-- 
2.43.0


From 914275d68105a66c5b7a96700ad57fa22b411d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:50 +0000
Subject: [PATCH 56/91] fix: stretch and shift estimates leave the matrix
 unchanged

Trimming to the requested side changed start lag and number of samples in the
header of the matrix, but not its data: a second estimate used other lags. A
reference without own header was compared at the lags of the first samples.
---
 src/seismic/monitor/post_corr_process.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 365caed..0b24116 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -884,6 +884,12 @@ def corr_mat_stretch(
     """
 
     data = deepcopy(cdata)
+    if ref_tr_stats is None and ref_trc is not None \
+            and np.shape(ref_trc)[-1] == data.shape[-1]:
+        # the reference is trimmed like the data
+        ref_tr_stats = stats
+    # the matrix is not trimmed in-place
+    stats = deepcopy(stats)
 
     dta = -stats['start_lag']
     dte = stats['end_lag']
@@ -986,6 +992,8 @@ def corr_mat_shift(
     """
 
     data = deepcopy(data)
+    # the matrix is not trimmed in-place
+    stats = deepcopy(stats)
 
     dta = -stats.start_lag
     dte = stats.end_lag
-- 
2.43.0


From 9d3c055bbcc3933d30f2066c0fb7a2d9f61ac128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:50 +0000
Subject: [PATCH 57/91] fix: stretch references about zero lag

A reference that is trimmed after stretching was stretched about its first
(sides single) or central sample, even if this is not zero lag.
---
 src/seismic/monitor/stretch_mod.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index f9e91a5..789ded7 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -449,7 +449,12 @@ def time_stretch_estimate(
     time_facs = np.exp(-stretches)
 
     # time axis
-    if sides != 'single':
+    if ref_tr_trim is not None and ref_tr_stats is not None \
+            and ref_tr_stats['npts'] == len(ref_trc):
+        # The reference will be trimmed, zero lag can be anywhere
+        time_idx = np.arange(len(ref_trc)) + np.round(
+            ref_tr_stats['start_lag'] * ref_tr_stats['sampling_rate'], 6)
+    elif sides != 'single':
         time_idx = np.arange(len(ref_trc)) - (len(ref_trc) - 1.) / 2.
     else:
         time_idx = np.arange(len(ref_trc))
-- 
2.43.0


From 9c14b70bac8324219260f3c24e53505d7fb71d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:50 +0000
Subject: [PATCH 58/91] fix: use each lag once to measure shifts

With sides both, zero lag (or all lags, if no window is given) were counted
twice in the similarity.
---
 src/seismic/monitor/post_corr_process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 0b24116..1e8a04b 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -1200,7 +1200,8 @@ def measure_shift(
             np.ceil(twi[0]*stats.sampling_rate),
             np.floor(twi[1]*stats.sampling_rate))
         if sides == 'both':
-            indices = np.concatenate((np.flipud(-indices), indices))
+            # each lag only once
+            indices = np.unique(np.concatenate((-indices, indices)))
         indices -= np.round(stats.start_lag * stats.sampling_rate)
         indices = indices.astype(int)
         # compare data and shifted reference
-- 
2.43.0


From f22f14cf253b7f989ece07e486cae6e64d75b7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:53 +0000
Subject: [PATCH 59/91] fix: refuse time windows that start before the first
 sample

Negative indices selected samples from the other end of the traces.
---
 src/seismic/monitor/stretch_mod.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index 789ded7..e5a7a31 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -122,6 +122,11 @@ def compute_wfc(
             raise ValueError(
                 'sides = %s not a valid option.' % sides)
 
+        if np.any(ctw < 0):
+            # negative indices would count from the end of the traces
+            raise IndexError(
+                'The time window starts before the first sample.')
+
         mask = np.zeros((mat.shape[1],))
         mask[ctw] = 1
 
@@ -298,6 +303,11 @@ def velocity_change_estimate(
             raise ValueError(
                 'sides = %s not a valid option.' % sides)
 
+        if np.any(ctw < 0):
+            # negative indices would count from the end of the traces
+            raise IndexError(
+                'The time window starts before the first sample.')
+
         mask = np.zeros((mat.shape[1],))
         mask[ctw] = 1
 
-- 
2.43.0


From 10217c414d438ae5e8d0e233676ea08f90c8a282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:53 +0000
Subject: [PATCH 60/91] fix: no stretch for rows without data and several
 references

The stretch of a row whose similarity is NaN was set to -stretch_range.
---
 src/seismic/monitor/stretch_mod.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index e5a7a31..37d90b8 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -850,10 +850,9 @@ def estimate_reftr_shifts_from_dt_corr(
         except Exception:
             pass
 
-        try:
-            dt = dt.filled(np.nan).astype('int')
-        except Exception:
-            pass
+        # Set dt to NaN where the correlation is NaN instead of having it equal
+        # to the first tested stretch
+        dt[np.isnan(corr)] = np.nan
 
         ret_dict = {'corr': corr,
                     'value': dt,
-- 
2.43.0


From 720470e84bfdb7a1816700d547dc32b75f067070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:53 +0000
Subject: [PATCH 61/91] fix: use the first of several time windows

The window itself was passed on instead of a list with the window, so that
its samples were taken as windows.
---
 src/seismic/monitor/stretch_mod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index 37d90b8..7e309c4 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -947,7 +947,7 @@ def multi_ref_vchange_and_align(
         print(
             "The multi-reference vchange evaluation cannot handle multiple "
             "time windows. Only the first time-window will be used")
-        tw = tw[0]
+        tw = tw[:1]
 
     multi_ref_panel = multi_ref_vchange(
         corr_data, ref_trs, tw=tw, stretch_range=stretch_range,
-- 
2.43.0


From ef7b501249326ac8143167a7ff5a56f986e4e79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:53 +0000
Subject: [PATCH 62/91] fix: combine several references for a single
 correlation

---
 src/seismic/monitor/stretch_mod.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index 7e309c4..ba8f128 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -814,7 +814,8 @@ def estimate_reftr_shifts_from_dt_corr(
         m = np.around(m / delta)  # , out=np.zeros_like(m, dtype='int32'))
         m = np.require(m, dtype='int32')
 
-        row, col = np.squeeze(multi_ref_panel['reftr_0']['sim_mat']).shape
+        row, col = np.atleast_2d(
+            np.squeeze(multi_ref_panel['reftr_0']['sim_mat'])).shape
 
         stmp = np.zeros((row, col, n_ref))
 
@@ -822,7 +823,8 @@ def estimate_reftr_shifts_from_dt_corr(
         for (i, reftr) in enumerate(np.sort(list(multi_ref_panel.keys()))):
 
             stmp[:, :, i] = \
-                np.roll(np.squeeze(multi_ref_panel[reftr]['sim_mat']),
+                np.roll(np.atleast_2d(
+                    np.squeeze(multi_ref_panel[reftr]['sim_mat'])),
                         m[i],
                         axis=1)
 
-- 
2.43.0


From 6876b15e661d036203ca5c8d753214ffb39c7dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:50 +0000
Subject: [PATCH 63/91] fix: correct the shift or stretch of a single
 correlation

---
 src/seismic/monitor/post_corr_process.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 1e8a04b..2860b12 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -1242,6 +1242,8 @@ def apply_shift(
     :param shifts: shifts in seconds for each trace in 'data'
     """
     times = np.linspace(stats.start_lag, stats.end_lag, stats.npts)
+    # the estimate for a single trace has no dimension
+    shifts = np.atleast_1d(shifts)
     # stretch every line
     for (ii, line) in enumerate(data):
         # s = UnivariateSpline(times, line, s=0)
@@ -1267,6 +1269,8 @@ def apply_stretch(
     :param stretches: stretches in relative units for each trace in 'data'
     """
     times = np.linspace(stats.start_lag, stats.end_lag, stats.npts)
+    # the estimate for a single trace has no dimension
+    stretches = np.atleast_1d(stretches)
 
     # stretch every line
     for (ii, line) in enumerate(data):
-- 
2.43.0


From 3a9a7d9fee2cf6cb2ebf9b7cdc0d41f8b26f99ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:59 +0000
Subject: [PATCH 64/91] fix: several references for a single correlation
 without data

---
 src/seismic/monitor/stretch_mod.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index ba8f128..5a7aa8d 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -633,6 +633,10 @@ def est_shift_from_dt_corr(
     :pram corr2: Correlation between velocity corrected trace and reference B
     """
 
+    # results for a single correlation have no dimension
+    dt1, dt2, corr1, corr2 = (
+        np.atleast_1d(x) for x in (dt1, dt2, corr1, corr2))
+
     # Create masked arrays so that NaNs are handled properly
     dt1 = np.ma.masked_array(
         dt1, mask=(np.isnan(dt1) | np.isinf(dt1)), fill_value=0)
-- 
2.43.0


From 51e2f8c61e1d50b44269568f724698609ee0f069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:49 +0000
Subject: [PATCH 65/91] fix: indentation in the combination of several
 references

---
 src/seismic/monitor/stretch_mod.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index 5a7aa8d..64db3d6 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -827,10 +827,10 @@ def estimate_reftr_shifts_from_dt_corr(
         for (i, reftr) in enumerate(np.sort(list(multi_ref_panel.keys()))):
 
             stmp[:, :, i] = \
-                np.roll(np.atleast_2d(
-                    np.squeeze(multi_ref_panel[reftr]['sim_mat'])),
-                        m[i],
-                        axis=1)
+                np.roll(
+                    np.atleast_2d(
+                        np.squeeze(multi_ref_panel[reftr]['sim_mat'])),
+                    m[i], axis=1)
 
         # Create a msked array to evaluate the mean
         stmp_masked = np.ma.masked_array(
-- 
2.43.0


From 58580d0b5c79a576c9d22c8dc3b21ffec43c894f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:25 +0000
Subject: [PATCH 66/91] fix: average waveform coherences with different numbers
 of references

Only the references of the first component were used, or a KeyError raised,
if the components did not have the same number of references.
---
 src/seismic/monitor/monitor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index ac2579e..fc32afe 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -1196,7 +1196,10 @@ def average_components_wfc(wfcs: List[WFC]) -> WFC:
         if any((wfcp[k] != wfc.wfc_processing[k] for wfc in wfcs)):
             raise ValueError('%s is not allowed to differ.' % k)
     meandict = {}
-    for k in wfcs[0].keys():
-        meandict[k] = np.nanmean([wfc[k] for wfc in wfcs], axis=0)
+    # Not every component has to have the same number of references
+    keys = sorted({k for wfc in wfcs for k in wfc}, key=lambda k: (len(k), k))
+    for k in keys:
+        meandict[k] = np.nanmean(
+            [wfc[k] for wfc in wfcs if k in wfc], axis=0)
     wfcout = WFC(meandict, stats, wfcp)
     return wfcout
-- 
2.43.0


From 9d32d58efb5f3f069ceef607b948073a03763b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:25 +0000
Subject: [PATCH 67/91] fix: reference trace of a single or of equally similar
 correlations

None of them is above the percentile of the similarities: the result was NaN.
Without any correlation with data, an IndexError was raised.
---
 src/seismic/monitor/post_corr_process.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 2860b12..f7fba9b 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -790,11 +790,17 @@ def corr_mat_extract_trace(
         for ind in range(mm.shape[0]):
             cor[ind] = (
                 np.dot(ndata[ind, :], mean_tr) / np.sqrt(cm_sq[ind] * tm_sq))
+        valid = ~np.isnan(cor)
+        if not valid.any():
+            return np.full(ndata.shape[1], np.nan)
         # estimate the percentile excluding nans
-        tres = np.percentile(cor[~np.isnan(cor)], percentile)
+        tres = np.percentile(cor[valid], percentile)
         # find the traces that agree with the requested percentile and calc
         # their mean
         ind = cor > tres
+        if not ind.any():
+            # e.g., only one trace, or all of them equal
+            ind = cor >= tres
         out = np.mean(ndata[ind, :], 0)
     else:
         raise ValueError("Method '%s' not defined." % method)
-- 
2.43.0


From 59f828c0209580c163c8b61490311d6b924a7941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:25 +0000
Subject: [PATCH 68/91] fix: lapse time windows whose samples are no exact
 products

E.g., 0.29 s at 100 Hz is sample 28.999...: the window began one sample too
early on the one side and, on the other side, ended one sample too late.
---
 src/seismic/monitor/monitor.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index fc32afe..b32be38 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -300,9 +300,7 @@ class Monitor(object):
             tr = ref_trcs
 
         # Compute time window
-        tw = [np.arange(
-            tw_start*cbt.stats['sampling_rate'],
-            trim1*cbt.stats['sampling_rate'], 1)]
+        tw = [_time_window(tw_start, trim1, cbt.stats['sampling_rate'])]
         # 2023/09/29
         # sim_mat is not required in this operation
         dv = cbt.stretch(
@@ -695,9 +693,9 @@ class Monitor(object):
                         'Reference trace created.\nComputing WFC...')
 
                     # Compute time window
-                    tw = [np.arange(
-                        tw_start*cbt.stats['sampling_rate'],
-                        (tw_start+tw_len)*cbt.stats['sampling_rate'], 1)]
+                    tw = [_time_window(
+                        tw_start, tw_start + tw_len,
+                        cbt.stats['sampling_rate'])]
                     wfc = cbt.wfc(
                         tr, tw, 'both', tw_start, tw_len, fmin, fmax)
                     self.logger.debug(
@@ -721,6 +719,25 @@ class Monitor(object):
             cb = cb_bac.copy()
 
 
+def _time_window(
+        start: float, end: float, sampling_rate: float) -> np.ndarray:
+    """
+    Samples of a lag time window.
+
+    :param start: Start of the window in s.
+    :type start: float
+    :param end: End of the window in s (not included).
+    :type end: float
+    :param sampling_rate: Sampling rate in Hz.
+    :type sampling_rate: float
+    :return: The samples counted from zero lag.
+    :rtype: np.ndarray
+    """
+    # rounded because the product might not be exact
+    return np.arange(*np.ceil(np.round(
+        np.array([start, end])*sampling_rate, 6)).astype(int))
+
+
 def make_time_list(
     start_date: str, end_date: str, date_inc: int, win_len: int) -> Tuple[
         np.ndarray, np.ndarray]:
-- 
2.43.0


From eb8c29d49c773a67b53134fe556ab39b426bda60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:42 +0000
Subject: [PATCH 69/91] fix: extract reference traces with an array of
 increments

Only lists were accepted (ValueError).
---
 src/seismic/correlate/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 47f244c..f5434f2 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -381,7 +381,7 @@ class CorrBulk(object):
         ..note:: the extracted traces will also be saved in self.ref_trc
         """
         ref_trcs = []
-        if isinstance(win_inc, list):
+        if np.ndim(win_inc):
             win_inc = np.array(win_inc)
         elif win_inc == 0:
             return self.extract_trace(method, percentile)
-- 
2.43.0


From 7098e0960cd0df202bfa8814165d1b4de9c9b30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:45 +0000
Subject: [PATCH 70/91] fix: sensitivity kernels on grids whose spacing is not
 exact

Grids with a resolution of e.g., 0.1 km were refused because the differences
of the coordinates are not exactly equal.
---
 src/seismic/monitor/spatial.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index d0314ae..046876b 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -146,8 +146,12 @@ def sensitivity_kernel(
     atol = vel*dt/2
     if dt <= 0:
         raise ValueError('dt has to be greater than 0.')
-    if np.any(np.diff(x) != x[1]-x[0]) or np.any(np.diff(y) != y[1]-y[0]):
-        raise ValueError('x and y have to be monotonously increasing arrays.')
+    for ax in (x, y):
+        dax = np.diff(ax)
+        # The spacing is only constant within the floating point precision
+        if dax[0] <= 0 or not np.allclose(dax, dax[0]):
+            raise ValueError(
+                'x and y have to be monotonously increasing arrays.')
     if x[1]-x[0] < 2*vel*dt:
         warnings.warn(
             'dt is too large for the grid spacing. This can lead to '
-- 
2.43.0


From 10c771ba885eaac9b361fbdaec9e2a86e275d010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:45 +0000
Subject: [PATCH 71/91] fix: align velocity change curves to their own forward
 model

The forward model has no value for curves without usable value, so that the
remaining curves were aligned to the values of other station pairs.
---
 src/seismic/monitor/spatial.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index 046876b..41c10c6 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -1019,7 +1019,16 @@ class DVGrid(object):
             return dvs
         # Compute the foward value at each of the remaining dvs
         if hasattr(self, 'vel_change'):
-            shifts = self.forward_model(self.vel_change, dvs, utc)
+            shifts, available = [], []
+            for dv in dvs:
+                try:
+                    shifts.extend(
+                        self.forward_model(self.vel_change, [dv], utc))
+                except IndexError:
+                    # No usable value at this time
+                    continue
+                available.append(dv)
+            dvs = available
             if np.any(np.isnan(shifts)):
                 raise ValueError(
                     'The forward model returned nan values. why?'
-- 
2.43.0


From 7ab6945e2f844774282dbcef9ef5c98980123bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:45 +0000
Subject: [PATCH 72/91] fix: keep local and geographic coordinates of stations
 in the same order

---
 src/seismic/monitor/spatial.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index 41c10c6..6308b06 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -811,17 +811,13 @@ class DVGrid(object):
             self.statlon = np.array(lons)
             self.statlat = np.array(lats)
         # make sure there are no duplicates
-        coords = [(x, y) for x, y in zip(self.statx, self.staty)]
-        coords = list(set(coords))
-        self.statx, self.staty = zip(*coords)
-        self.statx = np.array(self.statx)
-        self.staty = np.array(self.staty)
-        # no duplicates for lat/lon
-        coords = [(lat, lon) for lat, lon in zip(self.statlat, self.statlon)]
-        coords = list(set(coords))
-        self.statlat, self.statlon = zip(*coords)
-        self.statlat = np.array(self.statlat)
-        self.statlon = np.array(self.statlon)
+        _, ii = np.unique(
+            np.array([self.statx, self.staty]), axis=1, return_index=True)
+        ii.sort()
+        self.statx = self.statx[ii]
+        self.staty = self.staty[ii]
+        self.statlat = self.statlat[ii]
+        self.statlon = self.statlon[ii]
 
     def _compute_cd(
         self, skernels: np.ndarray, freq0: float, freq1: float,
-- 
2.43.0


From 331c6a9c12b5f258eb3bfdb36a6497e8b3343b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:45 +0000
Subject: [PATCH 73/91] fix: processing parameters shared between velocity
 change objects

Aligning one of the objects created without parameters marked all of them as
aligned. Objects without parameters could not be inverted.
---
 src/seismic/monitor/dv.py      | 7 +++++--
 src/seismic/monitor/spatial.py | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index 6d9e71b..6cb53b6 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -78,7 +78,9 @@ class DV(object):
         self.second_axis = second_axis
         self.method = method
         self.stats = stats
-        self.dv_processing = dv_processing
+        # Not shared with other objects (see e.g., align_dvs_to_grid)
+        self.dv_processing = None if dv_processing is None\
+            else dict(dv_processing)
         # Available indices
         self.avail = ~np.isnan(self.corr)
 
@@ -107,7 +109,8 @@ class DV(object):
         :type path: str
         """
         kwargs = mu.save_header_to_np_array(self.stats)
-        if self.dv_processing is not None and len(self.dv_processing):
+        if self.dv_processing is not None\
+                and 'tw_start' in self.dv_processing:
             kwargs.update({
                 'freq_min': self.dv_processing['freq_min'],
                 'freq_max': self.dv_processing['freq_max'],
diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index 6308b06..73eedfd 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -777,7 +777,7 @@ class DVGrid(object):
         self._add_stations(slat1, slon1)
         vals = np.array(vals)
         corrs = np.array(corrs)
-        if processing is not None:
+        if processing is not None and 'tw_start' in processing:
             tw = (
                 processing['tw_start'],
                 processing['tw_start'] + processing['tw_len'])
-- 
2.43.0


From 056b4209e2086510a111c2d7f52761d2b6dbdd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:45 +0000
Subject: [PATCH 74/91] fix: refuse points north of the grid and any point
 outside of it

---
 src/seismic/monitor/spatial.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index 73eedfd..b370f94 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -879,13 +879,13 @@ class DVGrid(object):
         x, y = geo2cart(lat, lon, self.lat0, self.lon0)
         if not isinstance(x, np.ndarray):
             if np.all(abs(self.xf-x) > self.res) \
-                    or np.all(abs(self.yf-y > self.res)):
+                    or np.all(abs(self.yf-y) > self.res):
                 raise ValueError(
                     'The point is outside the coordinate grid'
                 )
             return np.argmin(abs(self.xf-x)**2+abs(self.yf-y)**2)
-        if np.all(np.array([abs(self.xf-xx) for xx in x]) > self.res)\
-                or np.all(np.array([abs(self.yf-yy) for yy in y]) > self.res):
+        if np.any([np.all(abs(self.xf-xx) > self.res) for xx in x])\
+                or np.any([np.all(abs(self.yf-yy) > self.res) for yy in y]):
             raise ValueError(
                 'The point is outside the coordinate grid'
             )
-- 
2.43.0


From 10a24ae6ba8e742ea387abba51d9766265e30155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:45 +0000
Subject: [PATCH 75/91] fix: taper the center of matrices symmetrically

A short taper (slope of one sample) muted the sample at -width/2 but not the
one at +width/2.
---
 src/seismic/monitor/post_corr_process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index f7fba9b..4f17913 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -582,7 +582,8 @@ def corr_mat_taper_center(
     # calculate inverse taper
     taper = np.zeros(length + 1)
     tap = cosine_taper(slope_length * 2, p=1)
-    taper[0:slope_length] = tap[slope_length:]
+    # mirrored because a taper of two samples is not symmetric
+    taper[0:slope_length] = tap[:slope_length][::-1]
     taper[-slope_length:] = tap[:slope_length]
 
     # calculate start end end points of the taper
-- 
2.43.0


From bad2b7f7c92c5c4f5f87cdaeedd94fe742f2ffbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:45 +0000
Subject: [PATCH 76/91] fix: correct the decay of one-sided matrices

The decay of matrices that could not be mirrored was fitted over the index of
the sample but corrected over its lag: an acausal side was damped instead of
amplified.
---
 src/seismic/monitor/post_corr_process.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 4f17913..9be8971 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -345,8 +345,9 @@ def corr_mat_correct_decay(data: np.ndarray, stats: CorrStats) -> np.ndarray:
     env = np.nanmean(env, 0)  # Shouldn't that be a mean or divided by the dim?
     # env = np.nansum(env, 0)
 
-    # fit the decay
-    t = np.arange(stats_mirr['npts'])
+    # fit the decay with the absolute lag in samples
+    cs = -stats_mirr['start_lag']*stats_mirr['sampling_rate']
+    t = np.absolute(np.arange(stats_mirr['npts']) - cs)
     le = np.log(env)
     K, log_A = np.polyfit(t, le, 1)
     A = np.exp(log_A)
-- 
2.43.0


From 20d3a6b32927552f71017d7fb44ea38e82350ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:45 +0000
Subject: [PATCH 77/91] fix: smooth the ends of traces with their reflections

The reflected copies were off by one sample on both ends, so that the ends of
a linear trace were bent, and a window as long as the trace raised an error.
---
 src/seismic/monitor/post_corr_process.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 9be8971..03903f3 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -105,8 +105,9 @@ def _smooth(
             "Window is not one of 'flat', 'hanning', 'hamming', "
             "'bartlett', 'blackman'")
 
-    s = np.r_[2 * x[0] - x[window_len:1:-1], x,
-              2 * x[-1] - x[-1:-window_len:-1]]
+    # extended by window_len - 1 samples on both sides, the point reflections
+    # of the trace in its first and last sample
+    s = np.pad(x, window_len - 1, mode='reflect', reflect_type='odd')
 
     if window == 'flat':  # moving average
         w = np.ones(window_len, 'd')
-- 
2.43.0


From 5e9498acdb2169a4027fee984b134344b263840d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:45 +0000
Subject: [PATCH 78/91] fix: normalize matrices over the requested lags

The window started or ended a sample early if the lag is not an exact multiple
of the sampling interval in floating point, and was counted from the end of
the trace if it ends before its start.
---
 src/seismic/monitor/post_corr_process.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 03903f3..54c2e44 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -424,13 +424,13 @@ def corr_mat_normalize(
     if starttime is not None:
         # first sample
         start = starttime - stats['start_lag']
-        start = int(np.floor(start*stats['sampling_rate']))
+        start = int(np.floor(np.round(start*stats['sampling_rate'], 6)))
     else:
         start = None
 
     if endtime is not None:
         end = endtime - stats['start_lag']
-        end = int(np.floor(end*stats['sampling_rate']))
+        end = int(np.floor(np.round(end*stats['sampling_rate'], 6)))
     else:
         end = None
 
@@ -438,8 +438,8 @@ def corr_mat_normalize(
     if start and start < 0:
         print('Error: starttime before beginning of trace. Data not changed.')
         return data
-    if end and end >= stats['npts']:
-        print('Error: endtime after end of trace. Data not changed.')
+    if end is not None and not 0 < end < stats['npts']:
+        print('Error: endtime not within the trace. Data not changed.')
         return data
 
     # calculate normalization factors
-- 
2.43.0


From 560f6b4971bb912f31a559a33811d9db9ecf63b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:45 +0000
Subject: [PATCH 79/91] fix: clip matrices with rows without data

A row without data turned the complete matrix to NaN (axis 0 or None).
---
 src/seismic/monitor/post_corr_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 54c2e44..4fd12c6 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -47,7 +47,7 @@ def corr_mat_clip(A: np.ndarray, thres: float, axis: int) -> np.ndarray:
     :return: The clipped array
     :rtype: np.ndarray
     """
-    clipv = thres * np.std(A, axis=axis)
+    clipv = thres * np.nanstd(A, axis=axis)
     if axis == 1:
         A = np.clip(A.T, -clipv, clipv).T
     else:
-- 
2.43.0


From 31f6ce367d4488072cc45259c4bdd6c246bc552d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:19 +0000
Subject: [PATCH 80/91] fix: taper the center of matrices without a slope

slope_frac=0 raised an error; widths whose number of samples is not exact in
floating point were tapered over two samples more.
---
 src/seismic/monitor/post_corr_process.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 4fd12c6..e53b042 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -578,15 +578,16 @@ def corr_mat_taper_center(
         raise ValueError('Taper width longer than signal.')
 
     # calculate size of taper (should be an even number)
-    length = int(2. * np.ceil(width * stats['sampling_rate'] / 2.))
-    slope_length = int(np.ceil(length * slope_frac / 2.))
+    length = int(2. * np.ceil(
+        np.round(width * stats['sampling_rate'] / 2., 6)))
+    slope_length = int(np.ceil(np.round(length * slope_frac / 2., 6)))
 
     # calculate inverse taper
     taper = np.zeros(length + 1)
     tap = cosine_taper(slope_length * 2, p=1)
     # mirrored because a taper of two samples is not symmetric
     taper[0:slope_length] = tap[:slope_length][::-1]
-    taper[-slope_length:] = tap[:slope_length]
+    taper[length + 1 - slope_length:] = tap[:slope_length]
 
     # calculate start end end points of the taper
     start = int(np.floor(np.round(
-- 
2.43.0


From c6d949428557218df7eb13454f96d352af00309e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:19 +0000
Subject: [PATCH 81/91] fix: decimate to sampling rates that are not exact

20 Hz/3 was resampled because 20//(20/3) is 2 in floating point.
---
 src/seismic/monitor/post_corr_process.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index e53b042..1ec169a 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -727,10 +727,11 @@ def corr_mat_resample_or_decimate(
 
     ..note:: This action is performed **in-place**.
     """
-    sr = stats['sampling_rate']
+    # rounded because freq might not be exactly a fraction of the sampling rate
+    factor = np.round(stats['sampling_rate']/freq, 6)
 
-    if sr/freq == sr//freq:
-        return corr_mat_decimate(data, stats, int(sr//freq))
+    if factor >= 1 and factor % 1 == 0:
+        return corr_mat_decimate(data, stats, int(factor))
     else:
         return corr_mat_resample_time(data, stats, freq)
 
-- 
2.43.0


From 5bb2eda0182a0cdef1ed701e453306f777070a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:51 +0000
Subject: [PATCH 82/91] fix: skip all damaged files when reading velocity
 changes with wildcards

---
 src/seismic/monitor/dv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index 6cb53b6..02cad20 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -15,7 +15,6 @@ from datetime import datetime
 from glob import glob
 from typing import List, Tuple, Optional
 import warnings
-from zipfile import BadZipFile
 
 import matplotlib.pyplot as plt
 import numpy as np
@@ -244,7 +243,8 @@ def read_dv(path: str) -> DV:
         for p in glob(path):
             try:
                 dvl.append(read_dv(p))
-            except BadZipFile:
+            except Exception:
+                # e.g., no archive, empty, or an array is missing
                 warnings.warn(f'File {p} corrupt, skipping..')
         if not len(dvl):
             raise FileNotFoundError(
-- 
2.43.0


From bafca1b763492980076d46b0a6a3222c7b828464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:43 +0000
Subject: [PATCH 83/91] fix: end spectrograms at the requested time

---
 src/seismic/trace_data/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index c6783f0..f15a4a4 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -421,7 +421,7 @@ class Store_Client(object):
         starttimes = starttime.timestamp + np.arange(
             0, endtime.timestamp-starttime.timestamp, increment)
         for start in starttimes:
-            end = UTCDateTime(start + increment)
+            end = UTCDateTime(min(start + increment, endtime.timestamp))
             st = self._load_local(
                 network, station, '*', channel, UTCDateTime(start), end,
                 attach_response=True, _check_times=False)
-- 
2.43.0


From eeef8099f42f3bb9f427c185ecb27dcbf8567a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:43 +0000
Subject: [PATCH 84/91] fix: read whole windows for spectrograms

---
 src/seismic/trace_data/waveform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index f15a4a4..0a79318 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -470,6 +470,8 @@ class Store_Client(object):
             raise ValueError(
                 'read_increment must be >= win_len, got {} and {}'.format(
                     read_increment, win_len))
+        # Only whole windows, so that no data is left over
+        read_increment = win_len*int(np.round(read_increment/win_len, 6))
         data_gen = self._generate_time_windows(
             network, station, channel, starttime, endtime, read_increment)
         return spct_series_welch(
-- 
2.43.0


From 6a1f4a0bc23cf18b680d3c535cac12bedf462c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:43 +0000
Subject: [PATCH 85/91] fix: no spectra of windows with gaps

---
 src/seismic/utils/raw_analysis.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/seismic/utils/raw_analysis.py b/src/seismic/utils/raw_analysis.py
index 54961cc..cc6e8b1 100644
--- a/src/seismic/utils/raw_analysis.py
+++ b/src/seismic/utils/raw_analysis.py
@@ -73,6 +73,12 @@ def spct_series_welch(
                 f'{e}')
             continue
         for wintr in tr.slide(window_length=window_length, step=window_length):
+            if np.ma.is_masked(wintr.data):
+                # The samples below the mask are not data
+                warnings.warn(
+                    'Gap in time window: '
+                    f'{wintr.stats.starttime}. Skipping...')
+                continue
             try:
                 f, S = welch(wintr.data, fs=wintr.stats.sampling_rate)
                 # interpolate onto a logarithmic frequency space
-- 
2.43.0


From 5901c87f5f85563bd9b206256354021961aeb7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:43 +0000
Subject: [PATCH 86/91] fix: collect the spectra of all processes

---
 src/seismic/utils/raw_analysis.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/seismic/utils/raw_analysis.py b/src/seismic/utils/raw_analysis.py
index cc6e8b1..804bff9 100644
--- a/src/seismic/utils/raw_analysis.py
+++ b/src/seismic/utils/raw_analysis.py
@@ -53,6 +53,8 @@ def spct_series_welch(
     specl = []
     # List of actually available times
     t = []
+    # frequencies, None if this rank has no data
+    f2 = None
     for ii, st in enumerate(streams):
         # Find out which stream to process
         if ii % psize != rank:
@@ -95,22 +97,25 @@ def spct_series_welch(
     # Gather all the data
     specl = comm.gather(specl, root=0)
     t = comm.gather(t, root=0)
+    f2 = comm.gather(f2, root=0)
     if rank == 0:
         # Flatten the list
         specl = [item for sublist in specl for item in sublist]
         t = [item for sublist in t for item in sublist]
         # Sort from values in t
-        specl = [x for _, x in sorted(zip(t, specl))]
+        specl = [
+            x for _, x in sorted(zip(t, specl), key=lambda item: item[0])]
         t = sorted(t)
 
         # Convert to numpy array
         S = np.array(specl)
         t = np.array(t)
-        try:
-            return f2, t, S.T
-        except UnboundLocalError:
+        # Any rank may have had data
+        f2 = [f for f in f2 if f is not None]
+        if not f2:
             raise ValueError(
                 'A spectrum could not be computed. Check earlier log messages')
+        return f2[0], t, S.T
     else:
         return None, None, None
 
-- 
2.43.0


From 744d1ad9778526a3dba29e890079cd9c20a764c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:43 +0000
Subject: [PATCH 87/91] fix: read files of adjacent months at the ends of
 months

---
 src/seismic/trace_data/waveform.py | 29 ++++++-----------------------
 1 file changed, 6 insertions(+), 23 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 0a79318..c0737b2 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -704,30 +704,13 @@ def _adjacent_filepattern(
                 elif tpart in ['%U', '%W']:
                     thistime = starttime + inc * datetime.timedelta(days=7)
                 elif tpart in ['%b', '%B', '%m']:
-                    if starttime.month + inc == 0:
-                        thistime = datetime.datetime(starttime.year-1,
-                                                     12,
-                                                     starttime.day,
-                                                     starttime.hour,
-                                                     starttime.minute,
-                                                     starttime.second,
-                                                     starttime.microsecond)
-                    elif starttime.month + inc == 13:
-                        thistime = datetime.datetime(starttime.year+1,
-                                                     1,
-                                                     starttime.day,
-                                                     starttime.hour,
-                                                     starttime.minute,
-                                                     starttime.second,
-                                                     starttime.microsecond)
+                    # Not all months have the same days
+                    first = starttime.replace(day=1)
+                    if inc == 1:
+                        thistime = (
+                            first + datetime.timedelta(days=31)).replace(day=1)
                     else:
-                        thistime = datetime.datetime(starttime.year,
-                                                     starttime.month + inc,
-                                                     starttime.day,
-                                                     starttime.hour,
-                                                     starttime.minute,
-                                                     starttime.second,
-                                                     starttime.microsecond)
+                        thistime = first - datetime.timedelta(days=1)
                 elif tpart in ['%y', '%Y']:
                     thistime = datetime.datetime(
                         starttime.year - inc, starttime.month, starttime.day,
-- 
2.43.0


From 754bee6687eded10efa926418bc152d1f314a489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:43 +0000
Subject: [PATCH 88/91] fix: look for the files of adjacent years in the right
 direction

---
 src/seismic/trace_data/waveform.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index c0737b2..24a0825 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -712,10 +712,9 @@ def _adjacent_filepattern(
                     else:
                         thistime = first - datetime.timedelta(days=1)
                 elif tpart in ['%y', '%Y']:
-                    thistime = datetime.datetime(
-                        starttime.year - inc, starttime.month, starttime.day,
-                        starttime.hour, starttime.minute, starttime.second,
-                        starttime.microsecond)
+                    # Not all years have the same days
+                    thistime = starttime.replace(
+                        year=starttime.year + inc, day=1)
     fname = _current_filepattern(ID, thistime, fs)
     return fname, thistime
 
-- 
2.43.0


From 7a90553c8db95c26598ad7c5b03cd376523d0cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:43 +0000
Subject: [PATCH 89/91] fix: read from file structures without time

---
 src/seismic/trace_data/waveform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 24a0825..3431f30 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -685,6 +685,8 @@ def _adjacent_filepattern(
     assert ((inc == 1) or (inc == -1)), " inc must either be 1 or -1"
     fname = ''
     flag = 0
+    # if there is no time indicator, there is only this file
+    thistime = starttime
     # find earlier time by turning back the time by one increment of the
     # last time indicator in the fs
     for part in fs[-1::-1]:
-- 
2.43.0


From 91b0013d9304b6ee50a34d7fdd588d49d3a9d266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:43 +0000
Subject: [PATCH 90/91] fix: replace parts of the id in file structures

---
 src/seismic/trace_data/waveform.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 3431f30..c3ef04b 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -742,7 +742,7 @@ def _fs_translate(part: str, ID: str, starttime: datetime.datetime) -> str:
     """
     IDlist = ID.split('.')
     if ('(' in part) and (')' in part):
-        trans = re.search('(.*?)', part).group(0)
+        trans = re.search(r'\(.*?\)', part).group(0)
     else:
         trans = None
     # in case there is something to translate remove from the filepart
@@ -765,7 +765,8 @@ def _fs_translate(part: str, ID: str, starttime: datetime.datetime) -> str:
         transl = trans[1:-1].split(',')
         assert len(transl) == 2, "%s is not valid for replacement" % trans
         res = res.replace(
-            transl[0].replace("'", ""), transl[1].replace("'", ""))
+            transl[0].strip().replace("'", ""),
+            transl[1].strip().replace("'", ""))
     return res
 
 
-- 
2.43.0


From 2f995e788c039054623fedc910cf68086fd2a133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:32 +0000
Subject: [PATCH 91/91] fix: look for the first sample in the file before

A single sample missing at the start of the request was not looked for in
the preceding file.
---
 src/seismic/trace_data/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index c3ef04b..540c0db 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -609,7 +609,7 @@ def read_from_filesystem(
 
     # if trace starts too late have a look in the previous section
     if (len(st) == 0) or (
-            (st[0].stats.starttime-st[0].stats.delta).datetime > starttime):
+            (st[0].stats.starttime-st[0].stats.delta).datetime >= starttime):
         fpattern, _ = _adjacent_filepattern(ID, starttime, fs, -1)
         if debug:
             print('Searching for files matching: %s\n at time %s\n' %
-- 
2.43.0

