From f63b8d025f94eba70059cc5461a774f6701676aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:04 +0000
Subject: [PATCH 01/42] fix: a fresh mask is all True bool, also with nan in
 data or no data

---
 channelpack/pack.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index f61ae42..4b15c16 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -316,10 +316,10 @@ class ChannelPack(object):
         """
 
         if not self.data:
-            self.mask = np.array([])
+            self.mask = np.array([], dtype=bool)
         else:
             lowest = sorted(self.data)[0]
-            self.mask = self.data[lowest] == self.data[lowest]
+            self.mask = np.ones(len(self.data[lowest]), dtype=bool)
 
     def duration(self, duration, samplerate=1, mindur=True):
         """Require each true part to be at least duration long.
@@ -389,7 +389,8 @@ class ChannelPack(object):
 
         """
 
-        result = np.array(tuple(datautils.startstop_bool(startb, stopb)))
+        result = np.array(tuple(datautils.startstop_bool(startb, stopb)),
+                          dtype=bool)
         if apply:
             self.mask &= result
         return result
-- 
2.43.0


From beabc932f7a45578806df48deea04257cc1bdff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:13 +0000
Subject: [PATCH 02/42] fix: reset the mask also when data is set to a NpDict

---
 channelpack/pack.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 4b15c16..88bd3de 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -212,12 +212,12 @@ class ChannelPack(object):
 
         """
         self.FALLBACK_PREFIX = 'ch'
+        self.mindur = None
         self.data = NpDict(data or {})
         self.filenames = []
         self.fn = ''             # Possible file name
         self.names = IntKeyDict(names or {})
         self.nof = None
-        self.mindur = None
         self.mask_reset()       # set self.mask
 
     def __setattr__(self, name, value):
@@ -239,8 +239,10 @@ class ChannelPack(object):
             object.__setattr__(self, name, value)
             if self.mindur is not None:
                 self.duration(self.mindur, samplerate=1, mindur=True)
-        elif name == 'data' and not isinstance(value, NpDict):
-            object.__setattr__(self, name, NpDict(value))
+        elif name == 'data':
+            if not isinstance(value, NpDict):
+                value = NpDict(value)
+            object.__setattr__(self, name, value)
             self.mask_reset()
         elif name == 'names' and not isinstance(value, IntKeyDict):
             object.__setattr__(self, name, IntKeyDict(value))
-- 
2.43.0


From 841e3682498928879e9c5cc304051b296dccd410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:23 +0000
Subject: [PATCH 03/42] fix: append_pack check before appending and do not
 share dicts

---
 channelpack/pack.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 88bd3de..109a105 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -290,19 +290,24 @@ class ChannelPack(object):
 
         """
 
-        if not self.data:
-            self.data = other.data
-        elif other.data:
+        # check alignment first, leave the pack untouched if it fails
+        if self.data and other.data:
             if not set(self.data.keys()) == set(other.data.keys()):
                 raise ValueError('Data dicts set of keys not equal')
+        if self.names and other.names:
+            if not set(self.names.keys()) == set(other.names.keys()):
+                raise ValueError('names dicts set of keys not equal')
+
+        if not self.data:
+            self.data = NpDict(other.data)
+        elif other.data:
+            appended = {}
             for key in other.data:
-                self.data[key] = np.append(self.data[key], other.data[key])
+                appended[key] = np.append(self.data[key], other.data[key])
+            self.data.update(appended)
 
         if not self.names:
-            self.names = other.names
-        elif other.names:
-            if not set(self.names.keys()) == set(other.names.keys()):
-                raise ValueError('names dicts set of keys not equal')
+            self.names = IntKeyDict(other.names)
 
         self.filenames.extend(other.filenames)
 
-- 
2.43.0


From e69a84d3a39c5c5bf88120326a6968313f1242bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:55 +0000
Subject: [PATCH 04/42] fix: duration and startstop do not alter mask array in
 place

---
 channelpack/pack.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 109a105..f1ee978 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -351,15 +351,18 @@ class ChannelPack(object):
 
         req_duration = int(duration * samplerate)
 
+        # the mask array might be referred to by others, don't alter it
+        mask = self.mask.copy()
         for sc in self._cached_slicelist:
             part_duration = sc.stop - sc.start
             if part_duration < req_duration and mindur:
-                self.mask[sc] = False
+                mask[sc] = False
             elif part_duration > req_duration and not mindur:
-                self.mask[sc] = False
+                mask[sc] = False
+        object.__setattr__(self, 'mask', mask)
 
         # need to reset _cached_slicelist because the __setattr__ is not called
-        # when mask is manipulated this way
+        # when mask is set this way
         self._cached_slicelist = self._slicelist()
 
         return self.mask
@@ -399,7 +402,7 @@ class ChannelPack(object):
         result = np.array(tuple(datautils.startstop_bool(startb, stopb)),
                           dtype=bool)
         if apply:
-            self.mask &= result
+            self.mask = self.mask & result
         return result
 
     def _slicelist(self):
-- 
2.43.0


From 95080c589efe3c8eed6f86b5ef39ab5439fe9fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:05 +0000
Subject: [PATCH 05/42] fix: a fallback string must match entirely

---
 channelpack/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index f1ee978..e1b5b80 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -560,7 +560,7 @@ class ChannelPack(object):
         # not in data, not a good name in names, last chance is a
         # fallback string
 
-        prefix_rx = self.FALLBACK_PREFIX + r'(\d+)'
+        prefix_rx = self.FALLBACK_PREFIX + r'(\d+)\Z'
         m = re.match(prefix_rx, ch)
 
         if m:
-- 
2.43.0


From bd0ad1198de5e266c89fed6393f4c0f1fd47ee6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:16 +0000
Subject: [PATCH 06/42] fix: records look up columns by key, a name might
 shadow another

---
 channelpack/pack.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index e1b5b80..0f85ff6 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -512,18 +512,19 @@ class ChannelPack(object):
 
         """
 
-        names = [self.names[key] for key in sorted(self.names)]
+        keys = sorted(self.names)
+        names = [self.names[key] for key in keys]
         if fallback:
-            names = [self.FALLBACK_PREFIX + str(key) for key in
-                     sorted(self.data)]
+            keys = sorted(self.data)
+            names = [self.FALLBACK_PREFIX + str(key) for key in keys]
 
         try:
             Record = namedtuple('Record', names)
         except ValueError:      # bad names
             raise ValueError('Includes invalid names: {}'.format(names))
 
-        for record in map(Record._make, zip(*[self(name, part=part, nof=nof)
-                                              for name in names])):
+        for record in map(Record._make, zip(*[self(key, part=part, nof=nof)
+                                              for key in keys])):
             yield record
 
     def _datakey(self, ch):
-- 
2.43.0


From 05239f763451e235d4be7582112248c82edac69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:25 +0000
Subject: [PATCH 07/42] fix: IntKeyDict and NpDict with iterators, setdefault
 and |=

---
 channelpack/pack.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 0f85ff6..5b35de5 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -29,13 +29,14 @@ class IntKeyDict(dict):
 
         # only concern about keys being integers, let parent handle
         # other dict violations
-        if args and isinstance(args[0], dict):
-            for key in args[0]:
+        if args and hasattr(args[0], 'keys'):
+            for key in args[0].keys():
                 if not isinstance(key, int):
                     raise TypeError(self._key_error_message(key))
 
         elif args and (hasattr(args[0], '__iter__') and not
                        isinstance(args[0], str)):
+            args = (list(args[0]),) + args[1:]  # might be an iterator
             for seq in args[0]:
                 if hasattr(seq, '__len__') and len(seq) > 2:
                     break       # not our problem
@@ -51,8 +52,12 @@ class IntKeyDict(dict):
 
     def setdefault(self, key, value=None):
         if not isinstance(key, int):
-            raise TypeError(self._key_error_message)
-        super(IntKeyDict, self).setdefault(key, value)
+            raise TypeError(self._key_error_message(key))
+        return super(IntKeyDict, self).setdefault(key, value)
+
+    def __ior__(self, other):
+        self.update(other)
+        return self
 
     def _key_error_message(self, key):
         return 'Only integer keys accepted, got: {}'.format(repr(key))
@@ -81,9 +86,9 @@ class NpDict(IntKeyDict):
         proxyargs = []
         proxykwargs = {}
 
-        if args and isinstance(args[0], dict):
+        if args and hasattr(args[0], 'keys'):
             proxydict = {}
-            for key in args[0]:
+            for key in args[0].keys():
                 array = np.array(args[0][key], copy=False)
                 self._check_raise_ndim(array, args[0][key])
                 proxydict[key] = array
@@ -123,7 +128,7 @@ class NpDict(IntKeyDict):
     def setdefault(self, key, value=None):
         array = np.array(value, copy=False)
         self._check_raise_ndim(array, value)
-        super(NpDict, self).setdefault(key, array)  # return? FIXME
+        return super(NpDict, self).setdefault(key, array)
 
     def _check_raise_ndim(self, array, value):
         """Check array for ndim == 1 and raise error if fail.
-- 
2.43.0


From c44f24d770b4436ea5f8e82febe4cb6ae08d65a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:53 +0000
Subject: [PATCH 08/42] fix: textpack with usecols not in ascending order

---
 channelpack/readtext.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index f593276..ce775ca 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -344,6 +344,7 @@ def textpack(fname, names=None, delimiter=None, skiprows=0, usecols=None,
 
     if usecols is not None:
         usecols = (usecols,) if type(usecols) is int else usecols
+        usecols = sorted(set(usecols))  # line fields come in column order
 
     if names:
         usecols = sorted(names)
-- 
2.43.0


From d29b8e61d891103b31127eee043654adc3b66a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:02 +0000
Subject: [PATCH 09/42] fix: a line of only tabs is an empty line with no
 delimiter given

---
 channelpack/readtext.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index ce775ca..5b80630 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -459,13 +459,15 @@ def linetuples(fo, bytehint=False, delimiter=None, usecols=None,
     def maybenan(s):
         return float(s) if s else np.nan
 
-    # don't strip off tabs or some possible white space delimiter
-    if not bytehint:
-        stripchars = string.whitespace.replace(delimiter or '\t', '')
+    # don't strip off some possible white space delimiter
+    if not delimiter:
+        stripchars = None
+    elif not bytehint:
+        stripchars = string.whitespace.replace(delimiter, '')
     elif bytehint:
         whites = string.whitespace.encode('ascii')
         # assuming delimiter is bytes or None
-        stripchars = whites.replace(delimiter or b'\t', b'')
+        stripchars = whites.replace(delimiter, b'')
 
     if hasnames:
         fieldnames = [field.strip() for field in
-- 
2.43.0


From f463e6d735766fbf89e805caa8e8e799aca3e726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:11 +0000
Subject: [PATCH 10/42] fix: textpack debug=True give same data and errors as
 debug=False

---
 channelpack/readtext.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index 5b80630..da834bd 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -4,7 +4,7 @@ Funtions for reading data from text files.
 """
 from __future__ import print_function
 import re
-from collections import namedtuple, defaultdict
+from collections import namedtuple
 import io
 import locale
 import string
@@ -381,25 +381,23 @@ def textpack(fname, names=None, delimiter=None, skiprows=0, usecols=None,
         # Then debug is on. Do the exact same thing but loop over the
         # tuples so we can count lines and provide meaningful debug
         # output prior to an exception.
-        columndata = defaultdict(list)
+        linetupleslist = []
         try:
             for i, linetuple in enumerate(linetupler):
                 debugdict['linum'] = i
-                if usecols is not None:
-                    for column, value in zip(usecols, linetuple):
-                        columndata[column].append(value)
-                else:
-                    for column, value in enumerate(linetuple):
-                        columndata[column].append(value)
+                linetupleslist.append(linetuple)
         except Exception:
             for i, converter in enumerate(debugdict['funcs']):
                 print('converter func field', i, converter)
             print('last successful parse 1-based line number:',
-                  debugdict['linum'] + skiprows + 1)
+                  debugdict.get('linum', -1) + skiprows + 1)
             print('Traceback follows...')
             raise
 
-        return columndata
+        columns = list(zip(*linetupleslist))
+        if usecols is not None:
+            return dict(zip(usecols, columns))
+        return dict(enumerate(columns))
 
     with contextopen(fname, encoding=encoding) as context:
         fo = context.fo
-- 
2.43.0


From d1a788f583a36f53d0d61583bf9f51e09281d882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:40 +0000
Subject: [PATCH 11/42] fix: no record from end of file with no data lines

---
 channelpack/readtext.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index da834bd..b8952fa 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -473,7 +473,10 @@ def linetuples(fo, bytehint=False, delimiter=None, usecols=None,
         namesfunc = (as_is_stripped if not type(bytehint) is str
                      else as_is_stripped_decode)
 
-    firstvals = fo.readline().strip(stripchars).split(delimiter)  # bytes?
+    firstline = fo.readline()
+    # nothing at end of file
+    firstvals = (firstline.strip(stripchars).split(delimiter) if firstline
+                 else [])   # bytes?
     funcs = []
     for val in firstvals:
         try:
-- 
2.43.0


From 4e1ed3a98ec1f8a6b1abaa328c0c81286e772c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:48 +0000
Subject: [PATCH 12/42] fix: preparse with blank lines last or blank lines only

---
 channelpack/readtext.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index b8952fa..c712235 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -111,6 +111,9 @@ def preparse(lines, firstfieldrx=r'\w'):
         else:
             break
 
+    if not dresults:            # only blank lines
+        return {}
+
     Triplet = namedtuple('Triplet', ('numcnt', 'sepcnt', 'septypcnt'))
     dcounts = [Triplet(len(tup[0]), len(tup[1]), len(set(tup[1]))) for tup
                in dresults]
@@ -138,10 +141,11 @@ def preparse(lines, firstfieldrx=r'\w'):
     # if only one column of data (exp_septypcnt == 0) there shouldn't be
     # any non-numbers, non-whites around the number
     elif exp_septypcnt == 0:
+        lastline = lines[len(validcounts) - 1]
         if ((flag == 'd' and any(m.strip()
-                                 for m in re.split(DNUMRX, lines[-1])))
+                                 for m in re.split(DNUMRX, lastline)))
             or (flag == 'c' and any(m.strip()
-                                    for m in re.split(CNUMRX, lines[-1])))):
+                                    for m in re.split(CNUMRX, lastline)))):
             return {}
 
     # Data starts before line where number of different seps is not 1
-- 
2.43.0


From 024ea4a947309014f830ec6338bd9e4b79e944f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:57 +0000
Subject: [PATCH 13/42] fix: lazy_textpack and dbfpack read from the given
 stream position

---
 channelpack/dbf.py      | 3 ++-
 channelpack/readtext.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/channelpack/dbf.py b/channelpack/dbf.py
index 9cd7e25..da4fa0c 100644
--- a/channelpack/dbf.py
+++ b/channelpack/dbf.py
@@ -191,9 +191,10 @@ def dbfpack(dbf, names=None):
 
     with contextopen(dbf, 'rb') as context:
         fo = context.fo
+        tell = fo.tell()
         sniffnames = dbfreader(fo)
         allnames = next(sniffnames)
-        fo.seek(0)
+        fo.seek(tell)
         dbfrecs = dbfrecords(fo, names)
         next(dbfrecs)
         next(dbfrecs)
diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index c712235..a40577c 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -265,6 +265,7 @@ def lazy_textpack(fname, parselines=25, **textkwargs):
     encoding = textkwargs.get('encoding', locale.getpreferredencoding())
     with contextopen(fname, encoding=encoding) as context:
         fo = context.fo
+        tell = fo.tell()
         if context.bytehint:
             derived = preparse([fo.readline().decode(encoding)
                                 for i in range(parselines)])
@@ -276,7 +277,7 @@ def lazy_textpack(fname, parselines=25, **textkwargs):
                     derived['converters'][key] = _floatit_bytes
         else:
             derived = preparse([fo.readline() for i in range(parselines)])
-        fo.seek(0)
+        fo.seek(tell)
         derived.update(textkwargs)
 
         if 'usecols' in textkwargs and 'names' not in textkwargs:
-- 
2.43.0


From c76aed8ebc3325882e6d74efb8c21d16fd3d7f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:04 +0000
Subject: [PATCH 14/42] fix: read streams with a name that is not a string

---
 channelpack/readtext.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index a40577c..199e911 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -218,10 +218,9 @@ class contextopen(object):
             self.name = fname
         else:
             self.fo = fname
-            try:
-                self.name = fname.name
-            except AttributeError:
-                pass
+            name = getattr(fname, 'name', '')
+            if isinstance(name, str):  # might be a file descriptor number
+                self.name = name
 
         tell = self.fo.tell()
         self.bytehint = type(self.fo.read(1)) is bytes
-- 
2.43.0


From 70d6717ccf082c8187f3126d439835ac9d378116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:11 +0000
Subject: [PATCH 15/42] fix: dbfpack with names and deleted records

---
 channelpack/dbf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/dbf.py b/channelpack/dbf.py
index da4fa0c..7759f52 100644
--- a/channelpack/dbf.py
+++ b/channelpack/dbf.py
@@ -127,6 +127,7 @@ def dbfrecords(f, names):
         for field in selfields:
             f.seek(refaddr + field.seekme)
             record.append(struct.unpack(field.fmt, f.read(field.fmtsiz))[0])
+        f.seek(refaddr + fields[-1].seekme + fields[-1].fmtsiz)
 
         if record[0] != b' ':
             continue                        # deleted record
@@ -159,7 +160,6 @@ def dbfrecords(f, names):
             else:
                 value = value.decode('ascii')  # type = 'C' or other type
             result.append(value)
-        f.seek(refaddr + fields[-1].seekme + fields[-1].fmtsiz)
         yield result
 
 
-- 
2.43.0


From d5965b2907d4810462219b98a4c4281cd6926ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:36 +0000
Subject: [PATCH 16/42] fix: count of characters in STRING record with non-BMP
 characters

---
 channelpack/xlrd/sheet.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/channelpack/xlrd/sheet.py b/channelpack/xlrd/sheet.py
index a831398..b13a8b6 100644
--- a/channelpack/xlrd/sheet.py
+++ b/channelpack/xlrd/sheet.py
@@ -1524,7 +1524,10 @@ class Sheet(BaseObject):
                 offset += 1
             chunk = unicode(data[offset:], enc)
             result += chunk
-            nchars_found += len(chunk)
+            if bv >= 80:  # count is of 16-bit units, not code points
+                nchars_found += (len(data) - offset) >> flag
+            else:
+                nchars_found += len(chunk)
             if nchars_found == nchars_expected:
                 return result
             if nchars_found > nchars_expected:
-- 
2.43.0


From 148fb03dab2b9eb00e1792a37a484ef55d7fc5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:59 +0000
Subject: [PATCH 17/42] fix: setting data or names do not share the dict with
 others

---
 channelpack/pack.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/channelpack/pack.py b/channelpack/pack.py
index 5b35de5..bf8696b 100644
--- a/channelpack/pack.py
+++ b/channelpack/pack.py
@@ -245,11 +245,9 @@ class ChannelPack(object):
             if self.mindur is not None:
                 self.duration(self.mindur, samplerate=1, mindur=True)
         elif name == 'data':
-            if not isinstance(value, NpDict):
-                value = NpDict(value)
-            object.__setattr__(self, name, value)
+            object.__setattr__(self, name, NpDict(value))
             self.mask_reset()
-        elif name == 'names' and not isinstance(value, IntKeyDict):
+        elif name == 'names':
             object.__setattr__(self, name, IntKeyDict(value))
         elif name == 'fn':
             if not isinstance(value, str):
@@ -304,7 +302,7 @@ class ChannelPack(object):
                 raise ValueError('names dicts set of keys not equal')
 
         if not self.data:
-            self.data = NpDict(other.data)
+            self.data = other.data
         elif other.data:
             appended = {}
             for key in other.data:
@@ -312,7 +310,7 @@ class ChannelPack(object):
             self.data.update(appended)
 
         if not self.names:
-            self.names = IntKeyDict(other.names)
+            self.names = other.names
 
         self.filenames.extend(other.filenames)
 
-- 
2.43.0


From 1671e126ec949ce00e8da1e88664470619f7b82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:48 +0000
Subject: [PATCH 18/42] fix: blank lines before the first line of data in
 textpack

---
 channelpack/readtext.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index 199e911..66be24e 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -478,6 +478,8 @@ def linetuples(fo, bytehint=False, delimiter=None, usecols=None,
                      else as_is_stripped_decode)
 
     firstline = fo.readline()
+    while firstline and not firstline.strip(stripchars):  # blank, not data
+        firstline = fo.readline()
     # nothing at end of file
     firstvals = (firstline.strip(stripchars).split(delimiter) if firstline
                  else [])   # bytes?
-- 
2.43.0


From f5680a58befb42de933415951d5709c31a7192c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:29 +0000
Subject: [PATCH 19/42] fix: lazy_textpack with indented lines separated by
 white space

---
 channelpack/readtext.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index 66be24e..a1a9eb0 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -165,6 +165,15 @@ def preparse(lines, firstfieldrx=r'\w'):
         delimiter = flag == 'd' and dresults[-1][1][-1] or cresults[-1][1][-1]
     else:
         delimiter = None
+
+    # indented lines with all the numbers, a white space delimiter would
+    # see an empty field first on them
+    if delimiter and not delimiter.strip() and any(
+            line[:1].isspace() and triplet.numcnt == validcounts[-1].numcnt
+            for line, triplet in zip(lines[startline:],
+                                     validcounts[startline:])):
+        delimiter = None
+
     converters = (flag == 'c' and {column: _floatit for column
                                    in range(validcounts[-1].numcnt)} or None)
 
-- 
2.43.0


From 3167e924ba37c26341e369e670eb52011659d9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:41 +0000
Subject: [PATCH 20/42] fix: lazy_textpack with decimal comma data and only
 integers on the last line

---
 channelpack/readtext.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index a1a9eb0..bfff5b7 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -123,7 +123,21 @@ def preparse(lines, firstfieldrx=r'\w'):
     # check last line, let the lowest numcnt be valid. Require the set
     # of seps to be 1.
 
-    if dcounts[-1].numcnt <= ccounts[-1].numcnt:  # dot likely decimal sep
+    commas = False
+    if dcounts[-1].numcnt == ccounts[-1].numcnt:
+        # Could be only integers on the last line, let the closest line
+        # with a difference tell.
+        for line, dres, cres in zip(reversed(lines[:len(dresults)]),
+                                    reversed(dresults), reversed(cresults)):
+            if dres != cres:
+                commas = (len(''.join(cres[0])) > len(''.join(dres[0])) and
+                          len(cres[0]) == ccounts[-1].numcnt and
+                          set(cres[1]) == set(cresults[-1][1]) and
+                          not re.split(CNUMRX, line)[0].strip())
+                break
+
+    if (dcounts[-1].numcnt <= ccounts[-1].numcnt
+            and not commas):  # dot likely decimal sep
         validcounts = dcounts
         flag = 'd'
     else:
-- 
2.43.0


From 7c8852e7e32175510f1f2cc0e3d4d2d1d5bdc685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:51 +0000
Subject: [PATCH 21/42] fix: dbf records start where the header length says

A header longer than fields and terminator (Clipper writes one extra NUL)
shifted every record, so that all were taken as deleted.
---
 channelpack/dbf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/channelpack/dbf.py b/channelpack/dbf.py
index 7759f52..4968fba 100644
--- a/channelpack/dbf.py
+++ b/channelpack/dbf.py
@@ -40,6 +40,7 @@ def dbfreader(f):
 
     terminator = f.read(1)
     assert terminator == b'\r'
+    f.read(lenheader - 32 * numfields - 33)     # rest of header, if any
 
     fields.insert(0, ('DeletionFlag', 'C', 1, 0))
     fmt = ''.join(['%ds' % fieldinfo[2] for fieldinfo in fields])
@@ -120,6 +121,7 @@ def dbfrecords(f, names):
 
     terminator = f.read(1)
     assert terminator == b'\r'
+    f.read(lenheader - 32 * numfields - 33)     # rest of header, if any
 
     for i in range(numrec):
         refaddr = f.tell()
-- 
2.43.0


From eb85de1bdf583fc172f52c68c0e16620721a282d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:58 +0000
Subject: [PATCH 22/42] fix: refuse cell notations with trailing garbage

'C3:D5' or 'C3foo' was read as 'C3'.
---
 channelpack/readxl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/readxl.py b/channelpack/readxl.py
index fa06214..be70110 100644
--- a/channelpack/readxl.py
+++ b/channelpack/readxl.py
@@ -40,7 +40,7 @@ def cellreference(row=0, col=0, xladdr=None):
     if not xladdr:
         return CellRef(int(row), int(col))
 
-    m = re.match(r'([A-Za-z]+)(\d*)', xladdr)
+    m = re.match(r'([A-Za-z]+)(\d*)\Z', xladdr)
     if not m:
         raise ValueError('Invalid notation:', xladdr)
     if not m.group(2):
-- 
2.43.0


From 99b0ccb0e93016de76b7d3702196c9373cf913a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:08 +0000
Subject: [PATCH 23/42] fix: values of a column with cells of different kinds
 keep their type

numpy made strings of the numbers in a column with numbers and texts.
---
 channelpack/readxl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/channelpack/readxl.py b/channelpack/readxl.py
index be70110..4d51fd2 100644
--- a/channelpack/readxl.py
+++ b/channelpack/readxl.py
@@ -91,6 +91,8 @@ def sheet_columns(ws, startref, stopref, usecols):
                     value = value == 1
                 vals.append(value)
 
+            if len(typeset) > 1:  # let each value keep its type
+                vals = np.array(vals, dtype=object)
             yield vals
 
 
-- 
2.43.0


From 32590f2c7b5ca9f8e663b7819e8353bb769fadac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:45 +0000
Subject: [PATCH 24/42] fix: a formula string cell without a value is an empty
 text in xlsx too

Its value was None although its type is text.
---
 channelpack/xlrd/xlsx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/xlrd/xlsx.py b/channelpack/xlrd/xlsx.py
index a1ca2dd..e9c83af 100644
--- a/channelpack/xlrd/xlsx.py
+++ b/channelpack/xlrd/xlsx.py
@@ -685,7 +685,7 @@ class X12Sheet(X12General):
                         bad_child_tag(child_tag)
                 # assert tvalue is not None and formula is not None
                 # Yuk. Fails with file created by gnumeric -- no tvalue!
-                self.sheet.put_cell(rowx, colx, XL_CELL_TEXT, tvalue, xf_index)
+                self.sheet.put_cell(rowx, colx, XL_CELL_TEXT, tvalue or '', xf_index)
             elif cell_type == "b":
                 # b = boolean
                 # <v> child contains "0" or "1"
-- 
2.43.0


From d7d46fcd9848596e10292bcdedfbaffdf0c6daf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:56 +0000
Subject: [PATCH 25/42] fix: xlsx knows the same built-in date formats as xls

Cells with the CJK and Thai built-in date formats were plain numbers.
---
 channelpack/xlrd/xlsx.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/channelpack/xlrd/xlsx.py b/channelpack/xlrd/xlsx.py
index e9c83af..c198303 100644
--- a/channelpack/xlrd/xlsx.py
+++ b/channelpack/xlrd/xlsx.py
@@ -22,7 +22,7 @@ from .biffh import (
     error_text_from_code,
 )
 from .book import Book, Name
-from .formatting import XF, Format, is_date_format_string
+from .formatting import FDT, XF, Format, is_date_format_string, std_format_code_types
 from .sheet import Sheet
 from .timemachine import *
 
@@ -438,8 +438,9 @@ class X12Styles(X12General):
         self.xf_counts = [0, 0]
         self.xf_type = None
         self.fmt_is_date = {}
-        for x in list(range(14, 23)) + list(range(45, 48)): #### hard-coding FIX ME ####
-            self.fmt_is_date[x] = 1
+        for x, ty in std_format_code_types.items():
+            if ty == FDT:
+                self.fmt_is_date[x] = 1
         # dummy entry for XF 0 in case no Styles section
         self.bk._xf_index_to_xl_type_map[0] = 2
         # fill_in_standard_formats(bk) #### pre-integration kludge
-- 
2.43.0


From 80d9bc2805c9a309879c775c0118134b9506cd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:10 +0000
Subject: [PATCH 26/42] fix: a surrogate pair split between SST records reads
 as one character

---
 channelpack/xlrd/book.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/channelpack/xlrd/book.py b/channelpack/xlrd/book.py
index 4851236..9ffe85c 100644
--- a/channelpack/xlrd/book.py
+++ b/channelpack/xlrd/book.py
@@ -1438,7 +1438,7 @@ def unpack_SST_table(datatab, nstrings):
         if options & 0x04: # phonetic
             phosz = local_unpack('<i', data[pos:pos+4])[0]
             pos += 4
-        accstrg = UNICODE_LITERAL('')
+        accraw = b'' # UTF-16, a surrogate pair can be split between records
         charsgot = 0
         while 1:
             charsneed = nchars - charsgot
@@ -1447,22 +1447,14 @@ def unpack_SST_table(datatab, nstrings):
                 charsavail = local_min((datalen - pos) >> 1, charsneed)
                 rawstrg = data[pos:pos+2*charsavail]
                 # if DEBUG: print "SST U16: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                try:
-                    accstrg += unicode(rawstrg, "utf_16_le")
-                except:
-                    # print "SST U16: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                    # Probable cause: dodgy data e.g. unfinished surrogate pair.
-                    # E.g. file unicode2.xls in pyExcelerator's examples has cells containing
-                    # unichr(i) for i in range(0x100000)
-                    # so this will include 0xD800 etc
-                    raise
+                accraw += rawstrg
                 pos += 2*charsavail
             else:
                 # Note: this is COMPRESSED (not ASCII!) encoding!!!
                 charsavail = local_min(datalen - pos, charsneed)
                 rawstrg = data[pos:pos+charsavail]
                 # if DEBUG: print "SST CMPRSD: nchars=%d pos=%d rawstrg=%r" % (nchars, pos, rawstrg)
-                accstrg += unicode(rawstrg, latin_1)
+                accraw += unicode(rawstrg, latin_1).encode("utf_16_le")
                 pos += charsavail
             charsgot += charsavail
             if charsgot == nchars:
@@ -1472,6 +1464,7 @@ def unpack_SST_table(datatab, nstrings):
             datalen = len(data)
             options = local_BYTES_ORD(data[0])
             pos = 1
+        accstrg = unicode(accraw, "utf_16_le")
 
         if rtcount:
             runs = []
-- 
2.43.0


From 2f9cf3e9dde9ddd6d2e4c37332d9e087e0fd6c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:19 +0000
Subject: [PATCH 27/42] fix: phonetic data of a shared string can span several
 SST records

---
 channelpack/xlrd/book.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/channelpack/xlrd/book.py b/channelpack/xlrd/book.py
index 9ffe85c..b308f78 100644
--- a/channelpack/xlrd/book.py
+++ b/channelpack/xlrd/book.py
@@ -1479,7 +1479,7 @@ def unpack_SST_table(datatab, nstrings):
             richtext_runs[len(strings)] = runs
 
         pos += phosz # size of the phonetic stuff to skip
-        if pos >= datalen:
+        while pos >= datalen:
             # adjust to correct position in next record
             pos = pos - datalen
             datainx += 1
@@ -1488,5 +1488,6 @@ def unpack_SST_table(datatab, nstrings):
                 datalen = len(data)
             else:
                 assert _unused_i == nstrings - 1
+                break
         strappend(accstrg)
     return strings, richtext_runs
-- 
2.43.0


From 935ffc3a5a85c62c0675183755f9c4e83ba8a9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:42 +0000
Subject: [PATCH 28/42] fix: a surrogate pair split between STRING and CONTINUE
 records reads as one character

---
 channelpack/xlrd/sheet.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/channelpack/xlrd/sheet.py b/channelpack/xlrd/sheet.py
index b13a8b6..47beee2 100644
--- a/channelpack/xlrd/sheet.py
+++ b/channelpack/xlrd/sheet.py
@@ -1516,20 +1516,20 @@ class Sheet(BaseObject):
         if bv < 80:
             enc = bk.encoding or bk.derive_encoding()
         nchars_found = 0
-        result = UNICODE_LITERAL("")
+        result = b""  # UTF-16, a surrogate pair can be split between records
         while 1:
             if bv >= 80:
                 flag = BYTES_ORD(data[offset]) & 1
                 enc = ("latin_1", "utf_16_le")[flag]
                 offset += 1
-            chunk = unicode(data[offset:], enc)
+            chunk = data[offset:]
+            if enc != "utf_16_le":
+                chunk = unicode(chunk, enc).encode("utf_16_le")
             result += chunk
-            if bv >= 80:  # count is of 16-bit units, not code points
-                nchars_found += (len(data) - offset) >> flag
-            else:
-                nchars_found += len(chunk)
+            # for BIFF8 the count is of 16-bit units, not code points
+            nchars_found += len(chunk) >> 1
             if nchars_found == nchars_expected:
-                return result
+                return unicode(result, "utf_16_le")
             if nchars_found > nchars_expected:
                 msg = ("STRING/CONTINUE: expected %d chars, found %d"
                     % (nchars_expected, nchars_found))
-- 
2.43.0


From 7e6395b5802f765905d748baa1ac79a15452907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:03 +0000
Subject: [PATCH 29/42] fix: worksheet relations and comments are found
 whatever the case of their part names

---
 channelpack/xlrd/xlsx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/channelpack/xlrd/xlsx.py b/channelpack/xlrd/xlsx.py
index c198303..5be6520 100644
--- a/channelpack/xlrd/xlsx.py
+++ b/channelpack/xlrd/xlsx.py
@@ -814,7 +814,7 @@ def open_workbook_2007_xml(zf,
 
         rels_fname = 'xl/worksheets/_rels/%s.rels' % fname.rsplit('/', 1)[-1]
         if rels_fname in component_names:
-            zfrels = zf.open(rels_fname)
+            zfrels = zf.open(component_names[rels_fname])
             x12sheet.process_rels(zfrels)
             del zfrels
 
@@ -822,7 +822,7 @@ def open_workbook_2007_xml(zf,
             if reltype == 'comments':
                 comments_fname = x12sheet.relid2path.get(relid)
                 if comments_fname and comments_fname in component_names:
-                    comments_stream = zf.open(comments_fname)
+                    comments_stream = zf.open(component_names[comments_fname])
                     x12sheet.process_comments_stream(comments_stream)
                     del comments_stream
 
-- 
2.43.0


From a134343a47c8c4d0b7c02331ec2661fc46fc2aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:27 +0000
Subject: [PATCH 30/42] fix: xls files with more than 250 directory entries
 before the workbook stream

---
 channelpack/xlrd/compdoc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/xlrd/compdoc.py b/channelpack/xlrd/compdoc.py
index 412a89e..340a6db 100644
--- a/channelpack/xlrd/compdoc.py
+++ b/channelpack/xlrd/compdoc.py
@@ -120,7 +120,7 @@ class CompDoc(object):
                 % (len(mem), sec_size), file=logfile)
         self.mem_data_secs = mem_data_secs # use for checking later
         self.mem_data_len = mem_data_len
-        seen = self.seen = array.array('B', [0]) * mem_data_secs
+        seen = self.seen = array.array('i', [0]) * mem_data_secs
 
         if DEBUG:
             print('sec sizes', ssz, sssz, sec_size, self.short_sec_size, file=logfile)
-- 
2.43.0


From f878fb97d001b48898d8bc2bdcb73ab5d3799323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:26 +0000
Subject: [PATCH 31/42] fix: string results of formulas in double byte code
 pages before BIFF8

---
 channelpack/xlrd/sheet.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/channelpack/xlrd/sheet.py b/channelpack/xlrd/sheet.py
index 47beee2..eb8c8ee 100644
--- a/channelpack/xlrd/sheet.py
+++ b/channelpack/xlrd/sheet.py
@@ -1516,20 +1516,21 @@ class Sheet(BaseObject):
         if bv < 80:
             enc = bk.encoding or bk.derive_encoding()
         nchars_found = 0
-        result = b""  # UTF-16, a surrogate pair can be split between records
+        result = b""  # a surrogate pair can be split between records
         while 1:
             if bv >= 80:
                 flag = BYTES_ORD(data[offset]) & 1
                 enc = ("latin_1", "utf_16_le")[flag]
                 offset += 1
             chunk = data[offset:]
-            if enc != "utf_16_le":
+            if bv >= 80 and enc != "utf_16_le":
                 chunk = unicode(chunk, enc).encode("utf_16_le")
             result += chunk
-            # for BIFF8 the count is of 16-bit units, not code points
-            nchars_found += len(chunk) >> 1
+            # for BIFF8 the count is of 16-bit units, not code points,
+            # before that it is of bytes
+            nchars_found += len(chunk) >> (bv >= 80)
             if nchars_found == nchars_expected:
-                return unicode(result, "utf_16_le")
+                return unicode(result, "utf_16_le" if bv >= 80 else enc)
             if nchars_found > nchars_expected:
                 msg = ("STRING/CONTINUE: expected %d chars, found %d"
                     % (nchars_expected, nchars_found))
-- 
2.43.0


From 3e866bc3039a3eabd1017ed21131c842269d65ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:26 +0000
Subject: [PATCH 32/42] fix: short ARRAY records of BIFF3 and BIFF4

---
 channelpack/xlrd/sheet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/channelpack/xlrd/sheet.py b/channelpack/xlrd/sheet.py
index eb8c8ee..2629ed8 100644
--- a/channelpack/xlrd/sheet.py
+++ b/channelpack/xlrd/sheet.py
@@ -954,9 +954,9 @@ class Sheet(BaseObject):
                             if rc2 == XL_STRING or rc2 == XL_STRING_B2:
                                 gotstring = 1
                             elif rc2 == XL_ARRAY:
-                                row1x, rownx, col1x, colnx, array_flags, tokslen = \
-                                    local_unpack("<HHBBBxxxxxH", data2[:14])
                                 if blah_formulas:
+                                    row1x, rownx, col1x, colnx, array_flags, tokslen = \
+                                        local_unpack("<HHBBBxxxxxH", data2[:14])
                                     fprintf(self.logfile, "ARRAY: %d %d %d %d %d\n",
                                         row1x, rownx, col1x, colnx, array_flags)
                                     # dump_formula(bk, data2[14:], tokslen, bv, reldelta=0, blah=1)
@@ -1149,9 +1149,9 @@ class Sheet(BaseObject):
                 )
                 assert pos == data_len
             elif rc == XL_ARRAY:
-                row1x, rownx, col1x, colnx, array_flags, tokslen = \
-                    local_unpack("<HHBBBxxxxxH", data[:14])
                 if blah_formulas:
+                    row1x, rownx, col1x, colnx, array_flags, tokslen = \
+                        local_unpack("<HHBBBxxxxxH", data[:14])
                     print("ARRAY:", row1x, rownx, col1x, colnx, array_flags, file=self.logfile)
                     # dump_formula(bk, data[14:], tokslen, bv, reldelta=0, blah=1)
             elif rc == XL_SHRFMLA:
-- 
2.43.0


From 807a9000fe769dcac848f083e7d79308b211b992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:28 +0000
Subject: [PATCH 33/42] fix: an xls file cut short in the middle of a stream
 does not read as other data

---
 channelpack/xlrd/compdoc.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/channelpack/xlrd/compdoc.py b/channelpack/xlrd/compdoc.py
index 340a6db..7938d54 100644
--- a/channelpack/xlrd/compdoc.py
+++ b/channelpack/xlrd/compdoc.py
@@ -302,6 +302,8 @@ class CompDoc(object):
                         "OLE2 stream %r: sector allocation table invalid entry (%d)" %
                         (name, s)
                     )
+                if s >= 0 and len(sectors[-1]) < sec_size:
+                    raise CompDocError("%s: file is truncated in the middle of the stream" % name)
             assert s == EOCSID
         else:
             todo = size
@@ -323,6 +325,8 @@ class CompDoc(object):
                         "OLE2 stream %r: sector allocation table invalid entry (%d)" %
                         (name, s)
                     )
+                if s >= 0 and len(sectors[-1]) < grab:
+                    raise CompDocError("%s: file is truncated in the middle of the stream" % name)
             assert s == EOCSID
             if todo != 0:
                 fprintf(self.logfile,
@@ -453,6 +457,9 @@ class CompDoc(object):
         if not slices:
             # The stream is contiguous ... just what we like!
             return (mem, start_pos, expected_stream_size)
+        for _unused, slice_end in slices:
+            if slice_end > base + self.mem_data_len:
+                raise CompDocError("%s: file is truncated in the middle of the stream" % qname)
         slices.append((start_pos, end_pos))
         # print >> self.logfile, "+++>>> %d fragments" % len(slices)
         return (b''.join(mem[start_pos:end_pos] for start_pos, end_pos in slices), 0, expected_stream_size)
-- 
2.43.0


From 746e36a8b3f489b54eac02f34cb8fc5d6a552ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:04 +0000
Subject: [PATCH 34/42] fix: a lost allocation table sector of an xls file does
 not shift the ones after it

---
 channelpack/xlrd/compdoc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/channelpack/xlrd/compdoc.py b/channelpack/xlrd/compdoc.py
index 7938d54..6703606 100644
--- a/channelpack/xlrd/compdoc.py
+++ b/channelpack/xlrd/compdoc.py
@@ -194,6 +194,8 @@ class CompDoc(object):
                     trunc_warned = 1
                 MSAT[msidx] = EVILSID
                 dump_again = 1
+                # the entries of the sectors that follow keep their places
+                self.SAT.extend([EVILSID] * nent)
                 continue
             elif msid < -2:
                 raise CompDocError("MSAT: invalid sector id: %d" % msid)
-- 
2.43.0


From 8f5b248c4451e8846e12ddda1f44a94da366c26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:14 +0000
Subject: [PATCH 35/42] fix: an xlsx file is closed when it has been read

---
 channelpack/xlrd/__init__.py | 63 +++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 30 deletions(-)

diff --git a/channelpack/xlrd/__init__.py b/channelpack/xlrd/__init__.py
index 5153bf2..e500f55 100644
--- a/channelpack/xlrd/__init__.py
+++ b/channelpack/xlrd/__init__.py
@@ -112,37 +112,40 @@ def open_workbook(filename=None,
             peek = f.read(peeksz)
     if peek == b"PK\x03\x04": # a ZIP file
         if file_contents:
-            zf = zipfile.ZipFile(timemachine.BYTES_IO(file_contents))
+            zipfo = timemachine.BYTES_IO(file_contents)
         else:
-            zf = zipfile.ZipFile(filename)
-
-        # Workaround for some third party files that use forward slashes and
-        # lower case names. We map the expected name in lowercase to the
-        # actual filename in the zip container.
-        component_names = dict([(X12Book.convert_filename(name), name)
-                                for name in zf.namelist()])
-
-        if verbosity:
-            logfile.write('ZIP component_names:\n')
-            pprint.pprint(component_names, logfile)
-        if 'xl/workbook.xml' in component_names:
-            from . import xlsx
-            bk = xlsx.open_workbook_2007_xml(
-                zf,
-                component_names,
-                logfile=logfile,
-                verbosity=verbosity,
-                use_mmap=use_mmap,
-                formatting_info=formatting_info,
-                on_demand=on_demand,
-                ragged_rows=ragged_rows,
-            )
-            return bk
-        if 'xl/workbook.bin' in component_names:
-            raise XLRDError('Excel 2007 xlsb file; not supported')
-        if 'content.xml' in component_names:
-            raise XLRDError('Openoffice.org ODS file; not supported')
-        raise XLRDError('ZIP file contents not a known type of workbook')
+            zipfo = open(filename, "rb")
+
+        with zipfo:
+            zf = zipfile.ZipFile(zipfo)
+
+            # Workaround for some third party files that use forward slashes and
+            # lower case names. We map the expected name in lowercase to the
+            # actual filename in the zip container.
+            component_names = dict([(X12Book.convert_filename(name), name)
+                                    for name in zf.namelist()])
+
+            if verbosity:
+                logfile.write('ZIP component_names:\n')
+                pprint.pprint(component_names, logfile)
+            if 'xl/workbook.xml' in component_names:
+                from . import xlsx
+                bk = xlsx.open_workbook_2007_xml(
+                    zf,
+                    component_names,
+                    logfile=logfile,
+                    verbosity=verbosity,
+                    use_mmap=use_mmap,
+                    formatting_info=formatting_info,
+                    on_demand=on_demand,
+                    ragged_rows=ragged_rows,
+                )
+                return bk
+            if 'xl/workbook.bin' in component_names:
+                raise XLRDError('Excel 2007 xlsb file; not supported')
+            if 'content.xml' in component_names:
+                raise XLRDError('Openoffice.org ODS file; not supported')
+            raise XLRDError('ZIP file contents not a known type of workbook')
 
     from . import book
     bk = book.open_workbook_xls(
-- 
2.43.0


From 6bbec30325e9990e6d0c6c1d7b714b50dd331d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:42 +0000
Subject: [PATCH 36/42] fix: a file whose first character can not be decoded is
 closed

---
 channelpack/readtext.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index bfff5b7..3d6843c 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -245,6 +245,14 @@ class contextopen(object):
             if isinstance(name, str):  # might be a file descriptor number
                 self.name = name
 
+        try:
+            self.sneakread()
+        except Exception:
+            self.__exit__(None, None, None)
+            raise
+
+    def sneakread(self):
+        """Set the bytehint attribute, leave the io stream where it was."""
         tell = self.fo.tell()
         self.bytehint = type(self.fo.read(1)) is bytes
         self.fo.seek(tell)
-- 
2.43.0


From 1dfdd0a73dcb4a6090618cc5461dd3afd49323ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:52 +0000
Subject: [PATCH 37/42] fix: a defined name that can not be evaluated does not
 stop the reading

---
 channelpack/xlrd/book.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/channelpack/xlrd/book.py b/channelpack/xlrd/book.py
index b308f78..b516bc8 100644
--- a/channelpack/xlrd/book.py
+++ b/channelpack/xlrd/book.py
@@ -1067,7 +1067,17 @@ class Book(BaseObject):
             # Parse the formula ...
             if nobj.macro or nobj.binary: continue
             if nobj.evaluated: continue
-            evaluate_name_formula(self, nobj, namex, blah=blah)
+            try:
+                evaluate_name_formula(self, nobj, namex, blah=blah)
+            except Exception as e:
+                # Nothing to be had from this name (e.g. its formula is
+                # =1/0), that is no reason not to read the sheets.
+                if blah:
+                    fprintf(f, "name[%d]: formula not evaluated: %r\n", namex, e)
+                nobj.stack = []
+                nobj.result = None
+                nobj.any_rel = nobj.any_external = 0
+                nobj.any_err = nobj.evaluated = 1
 
         if self.verbosity >= 2:
             print("---------- name object dump ----------", file=f)
-- 
2.43.0


From 3ad7e0f1e76eb2bb98c9da104660996529fc918c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:48 +0000
Subject: [PATCH 38/42] fix: the text of a comment split within a surrogate
 pair

---
 channelpack/xlrd/sheet.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/channelpack/xlrd/sheet.py b/channelpack/xlrd/sheet.py
index 2629ed8..58991c0 100644
--- a/channelpack/xlrd/sheet.py
+++ b/channelpack/xlrd/sheet.py
@@ -2031,7 +2031,7 @@ class Sheet(BaseObject):
             (15, 0x8000, 'secret_edit'),
         ))
         totchars = 0
-        o.text = UNICODE_LITERAL('')
+        rawtext = b"" # UTF-16, a surrogate pair can be split between records
         while totchars < cchText:
             rc2, data2_len, data2 = self.book.get_record_parts()
             assert rc2 == XL_CONTINUE
@@ -2042,10 +2042,12 @@ class Sheet(BaseObject):
             if nb:
                 assert nchars % 2 == 0
                 nchars //= 2
-            utext, endpos = unpack_unicode_update_pos(data2, 0, known_len=nchars)
-            assert endpos == data2_len
-            o.text += utext
+            chunk = data2[1:]
+            if not nb:
+                chunk = unicode(chunk, "latin_1").encode("utf_16_le")
+            rawtext += chunk
             totchars += nchars
+        o.text = unicode(rawtext, "utf_16_le")
         o.rich_text_runlist = []
         totruns = 0
         while totruns < cbRuns: # counts of BYTES, not runs
-- 
2.43.0


From 7e9204f1f41a9e0dceed85faff6c8e55e05b8001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:39 +0000
Subject: [PATCH 39/42] fix: names of the sheets of another workbook going on
 in further records

---
 channelpack/xlrd/book.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/xlrd/book.py b/channelpack/xlrd/book.py
index b516bc8..9295d4c 100644
--- a/channelpack/xlrd/book.py
+++ b/channelpack/xlrd/book.py
@@ -1152,7 +1152,7 @@ class Book(BaseObject):
         for x in range(num_sheets):
             try:
                 shname, pos = unpack_unicode_update_pos(data, pos, lenlen=2)
-            except struct.error:
+            except (struct.error, IndexError, UnicodeError):
                 # #### FIX ME ####
                 # Should implement handling of CONTINUE record(s) ...
                 if self.verbosity:
-- 
2.43.0


From 8af44b16de3508937b691d10785ebd6249f88881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:35 +0000
Subject: [PATCH 40/42] fix: line number in the debug output of textpack with
 names or blank lines

---
 channelpack/readtext.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/channelpack/readtext.py b/channelpack/readtext.py
index 3d6843c..d1578d2 100644
--- a/channelpack/readtext.py
+++ b/channelpack/readtext.py
@@ -392,6 +392,9 @@ def textpack(fname, names=None, delimiter=None, skiprows=0, usecols=None,
 
     def datadict(fo, debugoutput=False):
 
+        if debugoutput:
+            fo = _LineCounter(fo)
+
         linetupler = linetuples(fo, delimiter=delimiter, usecols=usecols,
                                 bytehint=bytehint, converters=converters,
                                 stripstrings=stripstrings, hasnames=hasnames)
@@ -418,14 +421,14 @@ def textpack(fname, names=None, delimiter=None, skiprows=0, usecols=None,
         # output prior to an exception.
         linetupleslist = []
         try:
-            for i, linetuple in enumerate(linetupler):
-                debugdict['linum'] = i
+            for linetuple in linetupler:
+                debugdict['linum'] = fo.count
                 linetupleslist.append(linetuple)
         except Exception:
             for i, converter in enumerate(debugdict['funcs']):
                 print('converter func field', i, converter)
             print('last successful parse 1-based line number:',
-                  debugdict.get('linum', -1) + skiprows + 1)
+                  debugdict.get('linum', bool(hasnames)) + max(skiprows, 0))
             print('Traceback follows...')
             raise
 
@@ -447,6 +450,24 @@ def textpack(fname, names=None, delimiter=None, skiprows=0, usecols=None,
     return pack
 
 
+class _LineCounter:
+    """Count the lines read from stream fo by linetuples."""
+
+    def __init__(self, fo):
+        self.fo = fo
+        self.count = 0
+
+    def readline(self):
+        line = self.fo.readline()
+        self.count += bool(line)
+        return line
+
+    def __iter__(self):
+        for line in self.fo:
+            self.count += 1
+            yield line
+
+
 def linetuples(fo, bytehint=False, delimiter=None, usecols=None,
                converters=None, stripstrings=False, hasnames=False):
     """Yield data tuples from io stream fo.
-- 
2.43.0


From 003c7936687ac0f062598817f1231ca78e6ea39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:07 +0000
Subject: [PATCH 41/42] fix: resolve . and .. in the targets of workbook
 relations

---
 channelpack/xlrd/xlsx.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/channelpack/xlrd/xlsx.py b/channelpack/xlrd/xlsx.py
index 5be6520..98ebbc2 100644
--- a/channelpack/xlrd/xlsx.py
+++ b/channelpack/xlrd/xlsx.py
@@ -9,6 +9,7 @@
 from __future__ import print_function, unicode_literals
 
 import re
+import posixpath
 import sys
 from os.path import join, normpath
 
@@ -304,10 +305,9 @@ class X12Book(X12General):
                 self.dumpout('Id=%r Type=%r Target=%r', rid, reltype, target)
             self.relid2reltype[rid] = reltype
             # self.relid2path[rid] = 'xl/' + target
-            if target.startswith('/'):
-                self.relid2path[rid]  = target[1:] # drop the /
-            else:
-                self.relid2path[rid] = 'xl/' + target
+            # a target is relative to the workbook part, or from the root
+            self.relid2path[rid] = posixpath.normpath(
+                posixpath.join('/xl', target)).lstrip('/')
 
     def do_defined_name(self, elem):
         #### UNDER CONSTRUCTION ####
-- 
2.43.0


From fa6cc675ea2772c84ba8a8a5677b6678d76d7ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:59 +0000
Subject: [PATCH 42/42] fix: sheet of a BIFF4 stream that lies in one piece in
 a compound file

---
 channelpack/xlrd/book.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/channelpack/xlrd/book.py b/channelpack/xlrd/book.py
index 9295d4c..e003265 100644
--- a/channelpack/xlrd/book.py
+++ b/channelpack/xlrd/book.py
@@ -750,7 +750,7 @@ class Book(BaseObject):
         formatting.initialise_book(self)
         fake_sheet_name = UNICODE_LITERAL('Sheet 1')
         self._sheet_names = [fake_sheet_name]
-        self._sh_abs_posn = [0]
+        self._sh_abs_posn = [self.base]
         self._sheet_visibility = [0] # one sheet, visible
         self._sheet_list.append(None) # get_sheet updates _sheet_list but needs a None beforehand
         self.get_sheets()
-- 
2.43.0

