From 219773f7d1acb876d157e2165ee96c4859050196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:01 +0000
Subject: [PATCH 01/42] fix: write all DMap scalars before the arrays, as the
 record header and the reader expect

---
 pydarnio/dmap/dmap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 8cb06bd..c2e291e 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1041,17 +1041,20 @@ class DmapWrite(object):
         num_scalars = 0
         num_arrays = 0
         data_bytearray = bytearray()
+        # scalars always come before arrays in a DMap record
+        array_bytearray = bytearray()
         for name, data_info in record.items():
             if isinstance(data_info, DmapScalar):
                 data_bytearray.extend(self.dmap_scalar_to_bytes(data_info))
                 num_scalars += 1
             elif isinstance(data_info, DmapArray):
-                data_bytearray.extend(self.dmap_array_to_bytes(data_info))
+                array_bytearray.extend(self.dmap_array_to_bytes(data_info))
                 num_arrays += 1
             else:
                 raise dmap_exceptions.DmapTypeError(self.filename,
                                                     type(data_info),
                                                     self.rec_num)
+        data_bytearray.extend(array_bytearray)
 
         # 16 = encoding_identifier (int - 4 bytes) + num_scalars (int - 4) +
         #      num_arrays (int - 4) + size of the block (int - 4)
-- 
2.43.0


From 69e00fd3c79db1d24ea5fd54b3a3f39a456514b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:01 +0000
Subject: [PATCH 02/42] fix: size DMap names and strings by their UTF-8 length,
 not their character count

---
 pydarnio/dmap/dmap.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index c2e291e..42b448c 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1083,19 +1083,19 @@ class DmapWrite(object):
             Bytes of the scalar
         """
 
-        scalar_name = "{0}\0".format(scalar.name)
+        scalar_name = "{0}\0".format(scalar.name).encode('utf-8')
         scalar_name_format = '{0}s'.format(len(scalar_name))
         scalar_name_bytes = struct.pack(scalar_name_format,
-                                        scalar_name.encode('utf-8'))
+                                        scalar_name)
 
         scalar_type_bytes = struct.pack('c',
                                         chr(scalar.data_type).encode('utf-8'))
 
         if scalar.data_type_fmt == 's':
-            scalar_data = "{0}\0".format(scalar.value)
+            scalar_data = "{0}\0".format(scalar.value).encode('utf-8')
             scalar_data_format = '{0}s'.format(len(scalar_data))
             scalar_data_bytes = struct.pack(scalar_data_format,
-                                            scalar_data.encode('utf-8'))
+                                            scalar_data)
         elif scalar.data_type_fmt == 'c':
             # char is defined as int8 by RST
             if isinstance(scalar.value, str):
@@ -1140,10 +1140,10 @@ class DmapWrite(object):
             raise dmap_exceptions.DmapDataError(self.filename, message)
 
         array_value = array.value.flatten()
-        array_name = "{0}\0".format(array.name)
+        array_name = "{0}\0".format(array.name).encode('utf-8')
         array_name_format = '{0}s'.format(len(array_name))
         array_name_bytes = struct.pack(array_name_format,
-                                       array_name.encode('utf-8'))
+                                       array_name)
 
         array_type_bytes = struct.pack('c',
                                        chr(array.data_type).encode('utf-8'))
-- 
2.43.0


From 92878a4e1fe481fbfdcc4d1f5fdecc408c119e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:01 +0000
Subject: [PATCH 03/42] fix: write and read DMap char scalars as the signed
 8-bit integers RST defines

---
 pydarnio/dmap/dmap.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 42b448c..34b5d28 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -510,7 +510,10 @@ class DmapRead():
         scalar_type_fmt = DMAP_DATA_TYPES[scalar_type][0]
         scalar_fmt_byte = DMAP_DATA_TYPES[scalar_type][1]
 
-        if scalar_type_fmt != '':
+        if scalar_type_fmt == 'c':
+            # char is defined as int8 by RST
+            scalar_value = self.read_data('b', scalar_fmt_byte)
+        elif scalar_type_fmt != '':
             scalar_value = self.read_data(scalar_type_fmt, scalar_fmt_byte)
         else:
             message = "Error: Trying to read DMap data type for a scalar."\
@@ -1101,7 +1104,7 @@ class DmapWrite(object):
             if isinstance(scalar.value, str):
                 raise dmap_exceptions.DmapCharError(scalar.name, self.rec_num)
             # scalar_data_bytes = scalar.value
-            scalar_data_bytes = chr(scalar.value).encode('utf-8')
+            scalar_data_bytes = struct.pack('b', scalar.value)
         elif scalar.data_type_fmt == 'f':
             scalar_data_value = np.float32(scalar.value)
             scalar_data_bytes = struct.pack(scalar.data_type_fmt,
-- 
2.43.0


From aed2c1d107faf08a123b36eeb156bc1a63f3af87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:01 +0000
Subject: [PATCH 04/42] fix: leave the caller's DmapArray shape alone when
 writing

---
 pydarnio/dmap/dmap.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 34b5d28..51637b2 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1153,9 +1153,7 @@ class DmapWrite(object):
 
         array_dim_bytes = struct.pack('i', array.dimension)
         array_shape_bytes = bytes()
-        if array.dimension > 1:
-            array.shape.reverse()
-        for size in array.shape:
+        for size in reversed(array.shape):
             array_shape_bytes += struct.pack('i', size)
 
         array_data_bytes = array_value.tostring()
-- 
2.43.0


From 8e156be5d90ac0f6ec05e54038357b7745a41735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:01 +0000
Subject: [PATCH 05/42] fix: write array data little endian whatever the byte
 order of the source array

---
 pydarnio/dmap/dmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 51637b2..f18e5da 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1156,7 +1156,8 @@ class DmapWrite(object):
         for size in reversed(array.shape):
             array_shape_bytes += struct.pack('i', size)
 
-        array_data_bytes = array_value.tostring()
+        little_endian = array_value.dtype.newbyteorder('<')
+        array_data_bytes = array_value.astype(little_endian).tobytes()
 
         array_total_bytes = array_name_bytes + array_type_bytes + \
             array_dim_bytes + array_shape_bytes + array_data_bytes
-- 
2.43.0


From 4990b119616005a56df8427e755b18d4bb59a3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:01 +0000
Subject: [PATCH 06/42] fix: a repeated write produces the records once, not
 appended to the previous output

---
 pydarnio/dmap/dmap.py      | 1 +
 pydarnio/dmap/superdarn.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index f18e5da..6c3112e 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -1020,6 +1020,7 @@ class DmapWrite(object):
         # For performance increase len of the records can be
         # attribute value initialized in the class
         pyDARNio_log.debug("Converting DMap records to bytes")
+        self.dmap_bytearr = bytearray()
         for self.rec_num in range(len(self.dmap_records)):
             record = self.dmap_records[self.rec_num]
             self._dmap_record_to_bytes(record)
diff --git a/pydarnio/dmap/superdarn.py b/pydarnio/dmap/superdarn.py
index 017fda7..b545441 100644
--- a/pydarnio/dmap/superdarn.py
+++ b/pydarnio/dmap/superdarn.py
@@ -885,6 +885,7 @@ class SDarnWrite(DmapWrite):
 
         """
         self.rec_num = 0
+        self.dmap_bytearr = bytearray()
         pyDARNio_log.debug("Checking and converting SuperDARN data to bytes ")
 
         for self.rec_num in range(len(self.dmap_records)):
-- 
2.43.0


From 1b50af580941c765400e4403fe8bb56b43e20a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 07/42] fix: report an unterminated DMap string as a
 MismatchByteError, not an IndexError

---
 pydarnio/dmap/dmap.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 6c3112e..4bbdbec 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -699,13 +699,14 @@ class DmapRead():
             return data
         elif data_type_fmt == 's':
             byte_counter = 0
-            while self.dmap_bytearr[self.cursor + byte_counter] != 0 or \
-                    self.cursor + byte_counter >= self.dmap_end_bytes:
+            while self.cursor + byte_counter < self.dmap_end_bytes and \
+                    self.dmap_bytearr[self.cursor + byte_counter] != 0:
                 # add 1 byte to byte_counter because
                 # a string is a list of chars
                 byte_counter += 1  # 1 is the number of bytes of a char
 
-            self.bytes_check(self.cursor + byte_counter, 'cursor',
+            # the null terminator has to be in the buffer too
+            self.bytes_check(self.cursor + byte_counter + 1, 'cursor',
                              self.dmap_end_bytes, 'Total number of Bytes')
 
             # format byte counter to a string format for unpacking
-- 
2.43.0


From fd6697115f7933d5cfc6b273a5741aa6dddf25d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 08/42] fix: report DMap text that is not UTF-8 as a
 DmapDataError, not a UnicodeDecodeError

---
 pydarnio/dmap/dmap.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 4bbdbec..81a7131 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -717,7 +717,12 @@ class DmapRead():
                                       self.cursor)
             # 1 is the number of bytes in a char
             self.cursor = self.cursor + byte_counter + 1
-            return data[0].decode('utf-8')
+            try:
+                return data[0].decode('utf-8')
+            except UnicodeDecodeError:
+                message = "Error: DMap string is not valid UTF-8."\
+                    " Failed at record {}".format(self.rec_num)
+                raise dmap_exceptions.DmapDataError(self.dmap_file, message)
         else:
             data = struct.unpack_from(data_type_fmt,
                                       self.dmap_buffer,
-- 
2.43.0


From f632d2bc3eb471487a64d57198f05256bf7debff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 09/42] fix: report array data past the end of the buffer as a
 MismatchByteError

---
 pydarnio/dmap/dmap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 81a7131..b742d70 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -806,6 +806,9 @@ class DmapRead():
         DmapDataError
             Mismatch on the data type and the size specified in the byte array.
         """
+        self.bytes_check(self.cursor + total_number_cells * data_fmt_bytes,
+                         'end of array', self.dmap_end_bytes,
+                         'total bytes in file')
         if data_type_fmt == 'c':
             # In RST rtypes.h file, chars are defined as int8
             # allowing this assumption to be allowed for now
-- 
2.43.0


From c75912b98a3d7cc2e043766ca8e4e098ecc86684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 10/42] fix: reject negative dimensions of slist, which moved
 the read cursor backwards

---
 pydarnio/dmap/dmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index b742d70..857d053 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -570,7 +570,8 @@ class DmapRead():
 
         # slist is the array that holds the range gates that have valid data
         # when qflg is 1
-        if any(x <= 0 for x in array_shape) and array_name != "slist":
+        if any(x < 0 or (x == 0 and array_name != "slist")
+               for x in array_shape):
             message = "Error: Array shape {shape} contains "\
                 "dimension size <= 0."\
                 " Failed at record {rec}".format(shape=array_shape,
-- 
2.43.0


From 928ed42b94889cc0113cca6c81e20993dbcd45bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:00 +0000
Subject: [PATCH 11/42] fix: the integrity test reports mismatched block sizes
 instead of failing on a missing attribute

---
 pydarnio/dmap/dmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index 857d053..db5cc36 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -369,7 +369,7 @@ class DmapRead():
                 "".format(total_size=total_block_size,
                           end_bytes=self.dmap_end_bytes,
                           rec=self.rec_num)
-            raise dmap_exceptions.DmapDataError(self.data_file, message)
+            raise dmap_exceptions.DmapDataError(self.dmap_file, message)
         self.cursor = 0
 
     def read_records(self) -> collections.deque:
-- 
2.43.0


From ec9eb416f820bd22337577f1a27d69586bc93d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 12/42] fix: read 64-bit integer arrays as np.int64/np.uint64,
 so that they can be written again

---
 pydarnio/dmap/dmap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index db5cc36..ccc53b9 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -816,7 +816,9 @@ class DmapRead():
             array = np.frombuffer(self.dmap_buffer, np.int8,
                                   total_number_cells, self.cursor)
         else:
-            array = np.frombuffer(self.dmap_buffer, data_type_fmt,
+            # .str because 'q' and 'Q' alone give np.longlong, not np.int64
+            array = np.frombuffer(self.dmap_buffer,
+                                  np.dtype(data_type_fmt).str,
                                   total_number_cells, self.cursor)
         self.cursor += total_number_cells * data_fmt_bytes
         array = np.reshape(array, shape, order='C')
-- 
2.43.0


From 69de9641440f2ec57ac42e84ae678a75a119a737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:59 +0000
Subject: [PATCH 13/42] fix: a record without any of the mandatory SuperDARN
 fields is missing them all

---
 pydarnio/dmap/superdarn.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydarnio/dmap/superdarn.py b/pydarnio/dmap/superdarn.py
index b545441..447da73 100644
--- a/pydarnio/dmap/superdarn.py
+++ b/pydarnio/dmap/superdarn.py
@@ -177,7 +177,9 @@ class SDarnUtilities():
                 # If 0 nothing missing, if len(file_struct) then
                 # that subset is missing only meaning that command option was
                 # not used, not necessarily meaning that it is a record.
-                if len(diff_fields) not in (0, len(file_struct)):
+                # only the first structure, the standard fields, is mandatory
+                if len(diff_fields) not in (0, len(file_struct)) or \
+                        (diff_fields and file_struct is file_struct_list[0]):
                     missing_fields = missing_fields.union(diff_fields)
 
         if len(missing_fields) > 0:
-- 
2.43.0


From e311e75918838f733dccd1204390e543ffb878d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:34 +0000
Subject: [PATCH 14/42] fix: rawrf site records have all fields of the format,
 so that rawrf files can be read and written

---
 pydarnio/borealis/borealis_formats.py | 45 ++++++++-------------------
 1 file changed, 13 insertions(+), 32 deletions(-)

diff --git a/pydarnio/borealis/borealis_formats.py b/pydarnio/borealis/borealis_formats.py
index c9ba76c..bd8dae3 100644
--- a/pydarnio/borealis/borealis_formats.py
+++ b/pydarnio/borealis/borealis_formats.py
@@ -1685,6 +1685,19 @@ class BorealisRawrfv0_4(BaseFormat):
         """
         return cls.fields.array_types('rawrf')
 
+    @classmethod
+    def site_fields(cls):
+        """
+        See BaseFormat class for description and use of this method.
+
+        Notes
+        -----
+        The rawrf format is not restructureable, so its fields are not
+        classified as shared, unshared or site specific: a site structured
+        record has all of the fields of the format.
+        """
+        return list(cls.single_element_types()) + list(cls.array_dtypes())
+
 
 class BorealisRawacfv0_5(BorealisRawacfv0_4):
     """
@@ -2588,38 +2601,6 @@ class BorealisRawrf(BorealisRawrfv0_6):
     """
     fields = BorealisFields
 
-    @classmethod
-    def unshared_fields_dims_array(cls):
-        """
-        See BaseFormat class for description and use of this method.
-
-        Notes
-        -----
-        In Borealis v0.7, tx_antenna_phases was added to rawrf. It is an
-        unshared field because their values may not be the same from record to record.
-        """
-        unshared_fields_dims = super().unshared_fields_dims_array()
-        unshared_fields_dims.update({
-            'tx_antenna_phases': [cls.find_num_antennas],
-            })
-        return unshared_fields_dims
-
-    @classmethod
-    def unshared_fields_dims_site(cls):
-        """
-        See BaseFormat class for description and use of this method.
-
-        Notes
-        -----
-        In Borealis v0.7, tx_antenna_phases was added to rawrf. It is an
-        unshared field because their values may not be the same from record to record.
-        """
-        unshared_fields_dims = super().unshared_fields_dims_site()
-        unshared_fields_dims.update({
-            'tx_antenna_phases': [lambda arrays, record_num: arrays['data'].shape[1]],
-            })
-        return unshared_fields_dims
-
 
 # borealis versions
 borealis_version_dict = {
-- 
2.43.0


From 8a8b778611b41ef5d69c25a2526d1fb562872e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:34 +0000
Subject: [PATCH 15/42] fix: Borealis field checks report values without shape
 or dtype as wrong types instead of raising AttributeError

---
 pydarnio/borealis/borealis_utilities.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index e00fefe..6b31ff4 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -263,12 +263,14 @@ class BorealisUtilities():
                                  for param in attributes_type_dict.keys()
                                  if type(record[param]) !=
                                  attributes_type_dict[param] and
-                                 record[param].shape is not None}
+                                 not isinstance(record[param], h5py.Empty)}
 
         incorrect_types_check.update({param: 'np.ndarray of ' +
                                       str(datasets_type_dict[param])
                                       for param in datasets_type_dict.keys()
-                                      if record[param].dtype.type !=
+                                      if not isinstance(record[param],
+                                                        np.ndarray) or
+                                      record[param].dtype.type !=
                                       datasets_type_dict[param]})
         if len(incorrect_types_check) > 0:
             raise borealis_exceptions.BorealisDataFormatTypeError(
@@ -323,7 +325,7 @@ class BorealisUtilities():
                                  for param in attributes_type_dict.keys()
                                  if type(file_data[param]) !=
                                  attributes_type_dict[param] and
-                                 file_data[param].shape is not None}
+                                 not isinstance(file_data[param], h5py.Empty)}
 
         datasets_type_dict_keys = sorted(list(datasets_type_dict.keys()))
         np_array_types = [isinstance(file_data[param], np.ndarray) for param in
-- 
2.43.0


From a71974fa166986ef294bd36af4badbb153395d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:34 +0000
Subject: [PATCH 16/42] fix: Borealis array check accepts text arrays for text
 fields only

---
 pydarnio/borealis/borealis_utilities.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index 6b31ff4..3b68be9 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -347,7 +347,10 @@ class BorealisUtilities():
                                       for param in datasets_type_dict.keys()
                                       if file_data[param].dtype.type !=
                                       datasets_type_dict[param] and
-                                      file_data[param].dtype.type != np.str_})
+                                      not (file_data[param].dtype.type ==
+                                           np.str_ and
+                                           issubclass(datasets_type_dict[param],
+                                                      (str, bytes)))})
         if 'pulse_phase_offset' in incorrect_types_check.keys():
             if file_data['pulse_phase_offset'].dtype.type == np.int64 and file_data['pulse_phase_offset'].shape == (2,):
                 incorrect_types_check.pop('pulse_phase_offset')     # This field is problematic, hack to ignore
-- 
2.43.0


From fa1f344015b6cd40dc74bd4d46a6b1f11d8517c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:02 +0000
Subject: [PATCH 17/42] fix: v0.7 antennas_iq tx_antenna_phases is sized by its
 own antennas, not by those of the data

---
 pydarnio/borealis/borealis_formats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/borealis_formats.py b/pydarnio/borealis/borealis_formats.py
index bd8dae3..2a59236 100644
--- a/pydarnio/borealis/borealis_formats.py
+++ b/pydarnio/borealis/borealis_formats.py
@@ -2548,7 +2548,7 @@ class BorealisAntennasIq(BorealisAntennasIqv0_6):
         """
         unshared_fields_dims = super().unshared_fields_dims_array()
         unshared_fields_dims.update({
-            'tx_antenna_phases': [cls.find_num_antennas],
+            'tx_antenna_phases': [cls.fields.find_num_antennas_site],
             })
         return unshared_fields_dims
 
@@ -2564,7 +2564,7 @@ class BorealisAntennasIq(BorealisAntennasIqv0_6):
         """
         unshared_fields_dims = super().unshared_fields_dims_site()
         unshared_fields_dims.update({
-            'tx_antenna_phases': [lambda arrays, record_num: arrays['data'].shape[1]],
+            'tx_antenna_phases': [lambda arrays, record_num: arrays['tx_antenna_phases'].shape[1]],
             })
         return unshared_fields_dims
 
-- 
2.43.0


From ffa91920267b202d883e0bcb1c22718db04a4963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:02 +0000
Subject: [PATCH 18/42] fix: v0.7 bfiq and antennas_iq generate
 data_descriptors in the data type the format demands

---
 pydarnio/borealis/borealis_formats.py | 32 +++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/pydarnio/borealis/borealis_formats.py b/pydarnio/borealis/borealis_formats.py
index 2a59236..2946198 100644
--- a/pydarnio/borealis/borealis_formats.py
+++ b/pydarnio/borealis/borealis_formats.py
@@ -2503,6 +2503,27 @@ class BorealisBfiq(BorealisBfiqv0_6):
             })
         return unshared_fields_dims
 
+    @classmethod
+    def site_specific_fields_generate(cls):
+        """
+        See BaseFormat class for description and use of this method.
+        """
+        fields_generate = super().site_specific_fields_generate()
+        fields_generate['data_descriptors'] = lambda arrays, record_num: np.bytes_(
+            ['num_antenna_arrays', 'num_sequences', 'num_beams', 'num_samps'])
+        return fields_generate
+
+    @classmethod
+    def array_specific_fields_generate(cls):
+        """
+        See BaseFormat class for description and use of this method.
+        """
+        fields_generate = super().array_specific_fields_generate()
+        fields_generate['data_descriptors'] = lambda records: np.bytes_(
+            ['num_records', 'num_antenna_arrays', 'max_num_sequences',
+             'max_num_beams', 'num_samps'])
+        return fields_generate
+
 
 class BorealisAntennasIq(BorealisAntennasIqv0_6):
     """
@@ -2581,6 +2602,17 @@ class BorealisAntennasIq(BorealisAntennasIqv0_6):
                  arrays['data'].shape[3]], dtype=np.uint32)
         }
 
+    @classmethod
+    def array_specific_fields_generate(cls):
+        """
+        See BaseFormat class for description and use of this method.
+        """
+        fields_generate = super().array_specific_fields_generate()
+        fields_generate['data_descriptors'] = lambda records: np.bytes_(
+            ['num_records', 'num_antennas', 'max_num_sequences', 'num_samps'])
+        return fields_generate
+
+
 class BorealisRawrf(BorealisRawrfv0_6):
     """
     Class containing Borealis Rawrf data fields and their types for current
-- 
2.43.0


From 3414f04a1b82842b77adab1394f46117cf31f791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:55 +0000
Subject: [PATCH 19/42] fix: Borealis text attributes are written as UTF-8, as
 they are read

---
 pydarnio/borealis/base_format.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 8519dfa..a2174e8 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -1384,7 +1384,7 @@ class BaseFormat():
                 for k, v in group_dict.items():
                     if k in attribute_types.keys():
                         if isinstance(v, str):
-                            group.attrs[k] = np.bytes_(v)
+                            group.attrs[k] = np.bytes_(v.encode('utf-8'))
                         else:
                             group.attrs[k] = v
                     elif v.dtype.type == np.str_:
@@ -1417,7 +1417,7 @@ class BaseFormat():
             for k, v in arrays.items():
                 if k in attribute_types:
                     if isinstance(v, str):
-                        f.attrs[k] = np.bytes_(v)
+                        f.attrs[k] = np.bytes_(v.encode('utf-8'))
                     else:
                         f.attrs[k] = v
                 elif v.dtype.type == np.str_:
-- 
2.43.0


From 579830d61f4a1a8ada57d7947595c56a3343addb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:55 +0000
Subject: [PATCH 20/42] fix: zlib compression, the documented default for array
 files, is passed to h5py by its name there, gzip

---
 pydarnio/borealis/base_format.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index a2174e8..0aaad83 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -1378,6 +1378,8 @@ class BaseFormat():
         """
         attribute_types = cls.site_single_element_types()
         dataset_types = cls.site_array_dtypes()
+        if compression == 'zlib':
+            compression = 'gzip'  # h5py's name for zlib compression
         with h5py.File(filename, 'a') as f:
             for group_name, group_dict in records.items():
                 group = f.create_group(str(group_name))
@@ -1413,6 +1415,8 @@ class BaseFormat():
         attribute_types = cls.array_single_element_types()
         dataset_types = cls.array_array_dtypes()
         unshared_fields = cls.unshared_fields()
+        if compression == 'zlib':
+            compression = 'gzip'  # h5py's name for zlib compression
         with h5py.File(filename, 'a') as f:
             for k, v in arrays.items():
                 if k in attribute_types:
-- 
2.43.0


From bdb3652e0cc02f291c685cdf94c399b364dc2066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:55 +0000
Subject: [PATCH 21/42] fix: the beam dimension of restructured files covers
 the beams of every record, not only of the first

---
 pydarnio/borealis/base_format.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index 0aaad83..b234998 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -612,11 +612,11 @@ class BaseFormat():
                                         raise ValueError(f'Unexpected shape of field {field}: {field_shape}')
                         except KeyError:
                             continue
+                        if field == 'beam_nums':
+                            max_num_beams = max(field_shape[0], max_num_beams)
                         # Initialize shape to first record's field dimensions
                         if rec_idx == 0:
                             fields_max_dims[field] = field_shape
-                            if field == 'beam_nums':
-                                max_num_beams = max(field_shape[0], max_num_beams)
                         else:
                             # Update dims to keep largest for all records
                             new_shape = map(lambda dima, dimb: max(dima, dimb),
-- 
2.43.0


From 5f9043809ae7e7a2d7e74ceef33b6d5163b2187b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:55 +0000
Subject: [PATCH 22/42] fix: records with an empty array next to records with a
 filled one can be restructured

---
 pydarnio/borealis/base_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index b234998..c458201 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -1128,7 +1128,7 @@ class BaseFormat():
                     # dims with a determined max value
                     data_buffer = data_dict[k][field]
                     buffer_shape = data_buffer.shape
-                    index_slice = [slice(0, i) for i in buffer_shape if i != 0]
+                    index_slice = [slice(0, i) for i in buffer_shape]
                     # insert record index at start of array's slice list
                     index_slice.insert(0, rec_idx)
                     index_slice = tuple(index_slice)
-- 
2.43.0


From 0e36b26dd25f9e7b5b9770d9d317720b23bdf994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:51 +0000
Subject: [PATCH 23/42] fix: reading keeps pulse phase offsets given for every
 pulse of every sequence instead of zeroing them

---
 pydarnio/borealis/borealis_utilities.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index 3b68be9..df30d63 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -641,5 +641,7 @@ class BorealisUtilities():
             if 'pulse_phase_offset' not in rec:
                 continue
             ppo = rec['pulse_phase_offset']
+            if ppo.shape == (rec['num_sequences'],) + rec['pulses'].shape:
+                continue  # one offset per pulse of every sequence
             if ppo.shape != rec['pulses'].shape:  # The field is broken, was empty when written to file and so was restructured improperly
                 rec['pulse_phase_offset'] = np.zeros(rec['pulses'].shape, dtype=np.float32)
\ No newline at end of file
-- 
2.43.0


From eb60c505b8555973fa80e7e3312bb9ccb4e18584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:51 +0000
Subject: [PATCH 24/42] fix: pulse phase offsets given per pulse only are not
 cut to the number of sequences by array to site

---
 pydarnio/borealis/borealis_formats.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pydarnio/borealis/borealis_formats.py b/pydarnio/borealis/borealis_formats.py
index 2946198..0eb021d 100644
--- a/pydarnio/borealis/borealis_formats.py
+++ b/pydarnio/borealis/borealis_formats.py
@@ -2113,11 +2113,11 @@ class BorealisBfiqv0_6(BorealisBfiqv0_5):
             'gps_locked': [],
             'gps_to_system_time_diff': [],
             'pulse_phase_offset': [lambda arrays, record_num:
-                                   -1 if arrays['pulse_phase_offset'].size < arrays['num_sequences'][record_num]
+                                   list(arrays['pulse_phase_offset'].shape[1:])
+                                   if len(arrays['pulse_phase_offset'].shape) < 3
                                    else
                                    list((arrays['num_sequences'][record_num],)
-                                        + arrays['pulse_phase_offset'][
-                                              record_num].shape[1:])],
+                                        + arrays['pulse_phase_offset'].shape[2:])],
             })
         return unshared_fields_dims
 
@@ -2186,11 +2186,11 @@ class BorealisAntennasIqv0_6(BorealisAntennasIqv0_5):
             'gps_locked': [],
             'gps_to_system_time_diff': [],
             'pulse_phase_offset': [lambda arrays, record_num:
-                                   -1 if arrays['pulse_phase_offset'].size < arrays['num_sequences'][record_num]
+                                   list(arrays['pulse_phase_offset'].shape[1:])
+                                   if len(arrays['pulse_phase_offset'].shape) < 3
                                    else
                                    list((arrays['num_sequences'][record_num],)
-                                        + arrays['pulse_phase_offset'][
-                                              record_num].shape[1:])],
+                                        + arrays['pulse_phase_offset'].shape[2:])],
             })
         return unshared_fields_dims
 
-- 
2.43.0


From d36652739dbf38f679455b2caf85e15e17169cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:51 +0000
Subject: [PATCH 25/42] fix: files with one pulse phase offset per pulse, as
 written by this package, can be restructured to array

---
 pydarnio/borealis/base_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index c458201..c461fdb 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -605,7 +605,7 @@ class BaseFormat():
                                 actual_size = site_file[record_name][field].size
                                 num_sequences = site_file[record_name]['data_dimensions'][1]
                                 num_pulses = site_file[record_name]['pulses'].size
-                                if actual_size != num_sequences * num_pulses and actual_size != 0:
+                                if actual_size not in (num_sequences * num_pulses, num_pulses, 0):
                                     if actual_size == 1:    # This is the special case
                                         field_shape = (0,)
                                     else:
-- 
2.43.0


From c1efc03b38996535705b569a7c922a08d97b57b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:51 +0000
Subject: [PATCH 26/42] fix: Borealis readers report missing fields as such
 when pulse_phase_offset is present, and keep the offsets of two pulses

---
 pydarnio/borealis/borealis_utilities.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index df30d63..d369eda 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -629,7 +629,10 @@ class BorealisUtilities():
         if 'pulse_phase_offset' not in data_dict:
             return
         ppo = data_dict['pulse_phase_offset']
-        if ppo.shape == (2,):  # The field is broken, was empty when written to file and so was restructured improperly
+        if not hasattr(ppo, 'shape') or \
+                not isinstance(data_dict.get('num_sequences'), np.ndarray):
+            return  # left for the field checks to report
+        if ppo.shape == (2,) and ppo.dtype != np.float32:  # The field is broken, was empty when written to file and so was restructured improperly
             data_dict['pulse_phase_offset'] = np.zeros((data_dict['num_sequences'].shape[0], 0), dtype=np.float32)
 
     @staticmethod
@@ -641,6 +644,10 @@ class BorealisUtilities():
             if 'pulse_phase_offset' not in rec:
                 continue
             ppo = rec['pulse_phase_offset']
+            if not hasattr(ppo, 'shape') or \
+                    not isinstance(rec.get('pulses'), np.ndarray) or \
+                    not isinstance(rec.get('num_sequences'), np.integer):
+                continue  # left for the field checks to report
             if ppo.shape == (rec['num_sequences'],) + rec['pulses'].shape:
                 continue  # one offset per pulse of every sequence
             if ppo.shape != rec['pulses'].shape:  # The field is broken, was empty when written to file and so was restructured improperly
-- 
2.43.0


From 292840c04b5cc1306972c9e1df4f486607a76e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:30 +0000
Subject: [PATCH 27/42] fix: long, empty and non-ASCII texts that differ
 between records survive restructuring

---
 pydarnio/borealis/base_format.py          |  5 +++--
 pydarnio/borealis/borealis_restructure.py | 14 +++++++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/pydarnio/borealis/base_format.py b/pydarnio/borealis/base_format.py
index c461fdb..0fbafd3 100644
--- a/pydarnio/borealis/base_format.py
+++ b/pydarnio/borealis/base_format.py
@@ -1104,8 +1104,9 @@ class BaseFormat():
                 datatype = cls.array_dtypes()[field]
             if datatype == str:
                 # unicode type needs to be explicitly set to have
-                # multiple chars (256)
-                datatype='|U256'
+                # multiple chars (256, or more if needed)
+                datatype = '|U{}'.format(max([256] + [
+                    len(record[field]) for record in data_dict.values()]))
             empty_array = np.empty(array_dims, dtype=datatype)
             # Some indices may not be filled due to dimensions that are maximum values (num_sequences, etc. can change
             # between records), so they are initialized with a known value first.
diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index 2846901..ca41033 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -404,8 +404,11 @@ class BorealisRestructure(object):
                                 datatype = self.format.array_dtypes()[field]
                             if datatype == str:
                                 # unicode type needs to be explicitly set to
-                                # have multiple chars (256)
-                                datatype = '|U256'
+                                # have multiple chars (256, or more if needed)
+                                datatype = '|U{}'.format(max([256] + [
+                                    len(f[name].attrs[field]) for name in
+                                    self.record_names if not isinstance(
+                                        f[name].attrs[field], h5py.Empty)]))
                             empty_array = np.empty(array_dims, dtype=datatype)
                             # Some indices may not be filled due to dimensions
                             # that are maximum values (num_sequences, etc. can
@@ -436,7 +439,12 @@ class BorealisRestructure(object):
                             # place data buffer in the correct place
                             empty_array[index_slice] = data_buffer
                         else:  # not an array, num_records is the only dimension
-                            empty_array[rec_idx] = data_dict[field]
+                            value = data_dict[field]
+                            if isinstance(value, bytes):
+                                value = value.decode('utf-8')
+                            elif isinstance(value, h5py.Empty):
+                                value = ''
+                            empty_array[rec_idx] = value
 
             attribute_types = self.format.array_single_element_types()
             dataset_types = self.format.array_array_dtypes()
-- 
2.43.0


From e6f008f73b1d92b5bb0827ddf97de15ef001df56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:30 +0000
Subject: [PATCH 28/42] fix: any failure to restructure site records is
 reported as BorealisRestructureError, as for arrays

---
 pydarnio/borealis/borealis_restructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index ca41033..e85dbb2 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -453,7 +453,7 @@ class BorealisRestructure(object):
                                            unshared_fields)
             self.format.write_arrays(self.outfile_name, new_data_dict, self.compression)
 
-        except TypeError as err:
+        except Exception as err:
             raise borealis_exceptions.BorealisRestructureError(
                 'Records for {}: Error restructuring {} from site to array '
                 'style: {}'.format(self.infile_name, self.format.__name__, err)
-- 
2.43.0


From 962a02fb6ffd0962635ebb6d7a301494ede47339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:30 +0000
Subject: [PATCH 29/42] fix: the site writer reports an unknown file type as
 BorealisFileTypeError

---
 pydarnio/borealis/borealis_site.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_site.py b/pydarnio/borealis/borealis_site.py
index 833b064..6350186 100644
--- a/pydarnio/borealis/borealis_site.py
+++ b/pydarnio/borealis/borealis_site.py
@@ -344,11 +344,11 @@ class BorealisSiteWrite():
             Borealis software version format does not exist in pyDARNio
         """
         self._records = borealis_records
+        self.filename = filename
         if borealis_filetype not in ['bfiq', 'antennas_iq', 'rawacf', 'rawrf']:
             raise borealis_exceptions.BorealisFileTypeError(
                 self.filename, borealis_filetype)
         self.borealis_filetype = borealis_filetype
-        self.filename = filename
         self.compression = hdf5_compression
         self._record_names = sorted(list(borealis_records.keys()))
 
-- 
2.43.0


From 2c76b4c7dfe095d1ca334242f51dab807bfe1e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:53 +0000
Subject: [PATCH 30/42] fix: Borealis data without a readable borealis_git_hash
 are refused with BorealisStructureError

---
 pydarnio/borealis/borealis_array.py | 4 ++--
 pydarnio/borealis/borealis_site.py  | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pydarnio/borealis/borealis_array.py b/pydarnio/borealis/borealis_array.py
index 0b15680..2d41521 100644
--- a/pydarnio/borealis/borealis_array.py
+++ b/pydarnio/borealis/borealis_array.py
@@ -118,7 +118,7 @@ class BorealisArrayRead():
             with h5py.File(self.filename, 'r') as f:
                 full_version = f.attrs['borealis_git_hash'].decode('utf-8').split('-')[0]
                 version = '.'.join(full_version.split('.')[:2])      # vX.Y, ignore patch revision
-        except KeyError as err:
+        except (KeyError, AttributeError) as err:
             raise borealis_exceptions.BorealisStructureError(
                 ' {} Could not find the borealis_git_hash required to '
                 'determine read version (file may be site style) {}'
@@ -329,7 +329,7 @@ class BorealisArrayWrite():
         try:
             version = self._arrays['borealis_git_hash'].split('-')[0]
             version = '.'.join(version.split('.')[:2])      # vX.Y, ignore patch revision
-        except KeyError as err:
+        except (KeyError, TypeError, AttributeError) as err:
             raise borealis_exceptions.BorealisStructureError(
                 ' {} Could not find the borealis_git_hash required to '
                 'determine write version (data may be site style): {}'
diff --git a/pydarnio/borealis/borealis_site.py b/pydarnio/borealis/borealis_site.py
index 6350186..da8acd3 100644
--- a/pydarnio/borealis/borealis_site.py
+++ b/pydarnio/borealis/borealis_site.py
@@ -127,7 +127,7 @@ class BorealisSiteRead():
                 first_rec = f[self._record_names[0]]
                 full_version = first_rec.attrs['borealis_git_hash'].decode('utf-8').split('-')[0]
                 version = '.'.join(full_version.split('.')[:2])      # vX.Y, ignore patch revision
-        except (IndexError, KeyError) as err:
+        except (IndexError, KeyError, AttributeError) as err:
             # if this is an array style file, it will raise
             # IndexError on the array.
             raise borealis_exceptions.BorealisStructureError(
@@ -358,7 +358,8 @@ class BorealisSiteWrite():
             version = self._records[self.record_names[0]][
                 'borealis_git_hash'].split('-')[0]
             version = '.'.join(version.split('.')[:2])      # get only vX.Y, ignore patch revision
-        except (IndexError, ValueError) as err:
+        except (IndexError, ValueError, KeyError, TypeError,
+                AttributeError) as err:
             # if this is an array style file, it will raise
             # IndexError on the array.
             raise borealis_exceptions.BorealisStructureError(
-- 
2.43.0


From 1be9fb538f7f634fc9ccb91dd87016df5ca69501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:53 +0000
Subject: [PATCH 31/42] fix: restructuring refuses unknown or missing versions
 with the documented errors

---
 pydarnio/borealis/borealis_restructure.py | 3 +++
 pydarnio/borealis/borealis_utilities.py   | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index e85dbb2..ff9e3ef 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -127,6 +127,9 @@ class BorealisRestructure(object):
             get_borealis_structure(self.record_names)
         self._borealis_version = BorealisUtilities.get_borealis_version(
             self.infile_name, self.record_names, self.borealis_structure)
+        if self.software_version not in borealis_formats.borealis_version_dict:
+            raise borealis_exceptions.BorealisVersionError(
+                self.infile_name, self.software_version)
         self._format = borealis_formats.borealis_version_dict[
             self.software_version][self.borealis_filetype]
 
diff --git a/pydarnio/borealis/borealis_utilities.py b/pydarnio/borealis/borealis_utilities.py
index d369eda..6e96aac 100644
--- a/pydarnio/borealis/borealis_utilities.py
+++ b/pydarnio/borealis/borealis_utilities.py
@@ -593,7 +593,7 @@ class BorealisUtilities():
             try:
                 with h5py.File(filename, 'r') as f:
                     borealis_git_hash = f.attrs['borealis_git_hash'].decode('utf-8')
-            except KeyError as err:
+            except (KeyError, IndexError, AttributeError) as err:
                 raise borealis_exceptions.BorealisStructureError(
                     ' {} Could not find the borealis_git_hash required to '
                     'determine file version. Data file may be corrupted. {}'
@@ -605,7 +605,7 @@ class BorealisUtilities():
                     first_rec = f[records[0]]
                     borealis_git_hash = first_rec.attrs['borealis_git_hash']\
                                             .decode('utf-8')
-            except KeyError as err:
+            except (KeyError, IndexError, AttributeError) as err:
                 raise borealis_exceptions.BorealisStructureError(
                     ' {} Could not find the borealis_git_hash required to '
                     'determine file version. Data file may be corrupted. {}'
-- 
2.43.0


From 86b02b207ac8681969ffe07daa91d799ac0d2388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:05 +0000
Subject: [PATCH 32/42] fix: Borealis writers can be printed

---
 pydarnio/borealis/borealis.py       | 10 ++++------
 pydarnio/borealis/borealis_array.py | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/pydarnio/borealis/borealis.py b/pydarnio/borealis/borealis.py
index 331f9ca..51bfd2c 100644
--- a/pydarnio/borealis/borealis.py
+++ b/pydarnio/borealis/borealis.py
@@ -367,18 +367,16 @@ class BorealisWrite():
     def __repr__(self):
         """For representation of the class object"""
 
-        return "{class_name}({filename}, {current_record_name})"\
+        return "{class_name}({filename}, {borealis_filetype})"\
                "".format(class_name=self.__class__.__name__,
                          filename=self.filename,
-                         current_record_name=self.current_record_name)
+                         borealis_filetype=self.borealis_filetype)
 
     def __str__(self):
         """For printing of the class object"""
 
-        return "Writing to filename: {filename} at record name: "\
-               "{current_record_name}"\
-               "".format(filename=self.filename,
-                         current_record_name=self.current_record_name)
+        return "Writing to filename: {filename}"\
+               "".format(filename=self.filename)
 
     @property
     def borealis_file_structure(self):
diff --git a/pydarnio/borealis/borealis_array.py b/pydarnio/borealis/borealis_array.py
index 2d41521..e6aea5e 100644
--- a/pydarnio/borealis/borealis_array.py
+++ b/pydarnio/borealis/borealis_array.py
@@ -349,18 +349,16 @@ class BorealisArrayWrite():
     def __repr__(self):
         """For representation of the class object"""
 
-        return "{class_name}({filename}, {current_record_name})"\
+        return "{class_name}({filename}, {borealis_filetype})"\
                "".format(class_name=self.__class__.__name__,
                          filename=self.filename,
-                         current_record_name=self.current_record_name)
+                         borealis_filetype=self.borealis_filetype)
 
     def __str__(self):
         """For printing of the class object"""
 
-        return "Writing to filename: {filename} at record name: "\
-               "{current_record_name}"\
-               "".format(filename=self.filename,
-                         current_record_name=self.current_record_name)
+        return "Writing to filename: {filename}"\
+               "".format(filename=self.filename)
 
     @property
     def record_names(self):
-- 
2.43.0


From e7afcffc3cb5d40eb4e23e257e152fa4d2b267f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:32 +0000
Subject: [PATCH 33/42] fix: the blanked samples rule of Borealis v0.5 and
 older is applied to those versions (a text was compared with a number)

---
 pydarnio/borealis/borealis_convert.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydarnio/borealis/borealis_convert.py b/pydarnio/borealis/borealis_convert.py
index 77fae9a..a218111 100644
--- a/pydarnio/borealis/borealis_convert.py
+++ b/pydarnio/borealis/borealis_convert.py
@@ -366,8 +366,8 @@ class BorealisConvert(BorealisRead):
                 # then use 255.255
                 if record['borealis_git_hash'][0] == 'v':  # tagged version, non-tagged versions have hexadecimal
                     version = record['borealis_git_hash'].split('-')[0].split('.')
-                    borealis_major_revision = version[0][1:]  # strip off the 'v'
-                    borealis_minor_revision = version[1]
+                    borealis_major_revision = int(version[0][1:])  # strip off the 'v'
+                    borealis_minor_revision = int(version[1])
                 else:
                     borealis_major_revision = 255
                     borealis_minor_revision = 255
@@ -442,8 +442,8 @@ class BorealisConvert(BorealisRead):
                 # then use 255.255
                 if record['borealis_git_hash'][0] == 'v':  # tagged version, non-tagged versions have hexadecimal
                     version = record['borealis_git_hash'].split('-')[0].split('.')
-                    borealis_major_revision = version[0][1:]  # strip off the 'v'
-                    borealis_minor_revision = version[1]
+                    borealis_major_revision = int(version[0][1:])  # strip off the 'v'
+                    borealis_minor_revision = int(version[1])
                 else:
                     borealis_major_revision = 255
                     borealis_minor_revision = 255
-- 
2.43.0


From 27e2e10f43c1c9ddc0c094ad079c32c5c2847d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:32 +0000
Subject: [PATCH 34/42] fix: pulse phase offsets of every sequence are checked
 on conversion instead of raising ValueError

---
 pydarnio/borealis/borealis_convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_convert.py b/pydarnio/borealis/borealis_convert.py
index a218111..7988c98 100644
--- a/pydarnio/borealis/borealis_convert.py
+++ b/pydarnio/borealis/borealis_convert.py
@@ -398,7 +398,7 @@ class BorealisConvert(BorealisRead):
                                                   record['pulses'],
                                                   int(record['tau_spacing'] /
                                                       record['tx_pulse_len'])))
-                if not all([x == 0 for x in record['pulse_phase_offset']]):
+                if not np.all(record['pulse_phase_offset'] == 0):
                     raise borealis_exceptions.\
                             BorealisConvert2IqdatError(
                                 'Increased complexity: Borealis bfiq file '
-- 
2.43.0


From b2303990cb7615b55a5fb6304dd0093706aeccf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:32 +0000
Subject: [PATCH 35/42] fix: the interferometer of v0.7 bfiq records, named in
 bytes, is recognised on conversion to iqdat

---
 pydarnio/borealis/borealis_convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_convert.py b/pydarnio/borealis/borealis_convert.py
index 7988c98..66704c6 100644
--- a/pydarnio/borealis/borealis_convert.py
+++ b/pydarnio/borealis/borealis_convert.py
@@ -697,7 +697,7 @@ class BorealisConvert(BorealisRead):
                 'nrang': np.int16(record_dict['num_ranges']),
                 'frang': np.int16(round(record_dict['first_range'])),
                 'rsep': np.int16(round(record_dict['range_sep'])),
-                'xcf': np.int16('intf' in record_dict['antenna_arrays_order']),
+                'xcf': np.int16('intf' in record_dict['antenna_arrays_order'].astype(str)),
                 'tfreq': np.int16(record_dict['freq']),
                 # mxpwr filler; cannot specify this information
                 'mxpwr': np.int32(-1),
-- 
2.43.0


From 3b76ea271abc70b6255a10c7fc5cef441d42e857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:32 +0000
Subject: [PATCH 36/42] fix: iqdat sequence times tsc and tus are computed from
 timestamps in seconds, as the record time is

---
 pydarnio/borealis/borealis_convert.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydarnio/borealis/borealis_convert.py b/pydarnio/borealis/borealis_convert.py
index 66704c6..addf98c 100644
--- a/pydarnio/borealis/borealis_convert.py
+++ b/pydarnio/borealis/borealis_convert.py
@@ -731,11 +731,11 @@ class BorealisConvert(BorealisRead):
                                    record_dict['range_sep']),
                 'ptab': record_dict['pulses'].astype(np.int16),
                 'ltab': record_dict['lags'].astype(np.int16),
-                # timestamps in ms, convert to seconds and us.
-                'tsc': np.array([np.floor(x/1e3) for x in
+                # timestamps in seconds, split into seconds and us.
+                'tsc': np.array([np.floor(x) for x in
                                  record_dict['sqn_timestamps']],
                                 dtype=np.int32),
-                'tus': np.array([np.fmod(x, 1000.0) * 1e3 for x in
+                'tus': np.array([np.fmod(x, 1.0) * 1e6 for x in
                                  record_dict['sqn_timestamps']],
                                 dtype=np.int32),
                 'tatten': np.array([0] * record_dict['num_sequences'],
-- 
2.43.0


From 1ced6309505783877a0e69f7b9888f656830ae76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 37/42] fix: remove the partial output when restructuring array
 records fails

---
 pydarnio/borealis/borealis_restructure.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index ff9e3ef..0cebcb9 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -34,6 +34,7 @@ see: https://borealis.readthedocs.io/en/master/
 import h5py
 import logging
 import numpy as np
+import os
 from datetime import datetime
 from typing import Union
 from collections import OrderedDict
@@ -205,6 +206,7 @@ class BorealisRestructure(object):
         """
         attribute_types = self.format.site_single_element_types()
         dataset_types = self.format.array_dtypes()
+        outfile_existed = os.path.exists(self.outfile_name)
         try:
             with h5py.File(self.infile_name, 'r') as f:
 
@@ -296,6 +298,9 @@ class BorealisRestructure(object):
                     self.format.write_records(self.outfile_name, record_dict,
                                               self.compression)
         except Exception as err:
+            # records are written one at a time, do not leave only some of them
+            if not outfile_existed and os.path.exists(self.outfile_name):
+                os.remove(self.outfile_name)
             raise borealis_exceptions.BorealisRestructureError(
                 'Records for {}: Error restructuring {} from array to site '
                 'style: {}'
-- 
2.43.0


From 9f11f2c0bdc430d4387b2ee5fbfa02d42c4d8d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 38/42] fix: DMAP writers refuse empty record collections of
 any type, such as the deque of a reader, not only empty lists

---
 pydarnio/dmap/dmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydarnio/dmap/dmap.py b/pydarnio/dmap/dmap.py
index ccc53b9..5574f12 100644
--- a/pydarnio/dmap/dmap.py
+++ b/pydarnio/dmap/dmap.py
@@ -990,7 +990,7 @@ class DmapWrite(object):
         No checks are done, this up to the user to ensure their fields are
         correct.
         """
-        if self.dmap_records == []:
+        if len(self.dmap_records) == 0:
             self.dmap_records = self.__check_dmap_dict(dmap_records)
         self._empty_record_check()
         pyDARNio_log.info("Writing to dmap stream")
@@ -998,7 +998,7 @@ class DmapWrite(object):
         return self.dmap_bytearr
 
     def _empty_record_check(self):
-        if self.dmap_records == []:
+        if len(self.dmap_records) == 0:
             raise dmap_exceptions.DmapDataError(self.filename,
                                                 "DMap record is empty "
                                                 "there is nothing to write.")
-- 
2.43.0


From 3c7a7f37ce058b61a2518d31461912e534372e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 39/42] fix: restructuring recognises its input file as output
 under another spelling of its path

---
 pydarnio/borealis/borealis_restructure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_restructure.py b/pydarnio/borealis/borealis_restructure.py
index 0cebcb9..28c6db4 100755
--- a/pydarnio/borealis/borealis_restructure.py
+++ b/pydarnio/borealis/borealis_restructure.py
@@ -119,7 +119,8 @@ class BorealisRestructure(object):
                 "".format(outfile_structure))
         self.outfile_structure = outfile_structure
 
-        if self.infile_name == self.outfile_name:
+        if os.path.realpath(self.infile_name) == \
+                os.path.realpath(self.outfile_name):
             raise borealis_exceptions.ConvertFileOverWriteError(
                     self.infile_name)
 
-- 
2.43.0


From 5ca92579d461d5e4f60beb0a27e1cb6df6b04c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 40/42] fix: conversion recognises its input file as output
 under another spelling of its path

---
 pydarnio/borealis/borealis_convert.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydarnio/borealis/borealis_convert.py b/pydarnio/borealis/borealis_convert.py
index addf98c..a7750b2 100644
--- a/pydarnio/borealis/borealis_convert.py
+++ b/pydarnio/borealis/borealis_convert.py
@@ -42,6 +42,7 @@ Update noise values in SDarn fields when these can be calculated.
 """
 import logging
 import numpy as np
+import os
 
 from datetime import datetime
 from typing import Union
@@ -235,7 +236,8 @@ class BorealisConvert(BorealisRead):
                 self.sdarn_filename, self.borealis_filetype,
                 self.__allowed_conversions)
 
-        if self.borealis_filename == self.sdarn_filename:
+        if os.path.realpath(self.borealis_filename) == \
+                os.path.realpath(self.sdarn_filename):
             raise borealis_exceptions.ConvertFileOverWriteError(
                     self.borealis_filename)
         self._write_to_sdarn()
-- 
2.43.0


From d36a06230fd3b893c6263a2126a0deee8a5e29c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 41/42] fix: SDarnRead.get_records has the records read by
 read_records too, and none before reading

---
 pydarnio/dmap/superdarn.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pydarnio/dmap/superdarn.py b/pydarnio/dmap/superdarn.py
index 447da73..24265ec 100644
--- a/pydarnio/dmap/superdarn.py
+++ b/pydarnio/dmap/superdarn.py
@@ -406,6 +406,18 @@ class SDarnRead(DmapRead):
         """
         return self._dmap_records
 
+    @property
+    def records(self):
+        """
+        The records containing the dictionary of fields, by whichever method
+        they have been read
+        """
+        return self._records
+
+    @records.setter
+    def records(self, records):
+        self._records = records
+
     @property
     def get_records(self):
         """
-- 
2.43.0


From 1a4734f11112d981f29b77096423300de0366245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:16 +0000
Subject: [PATCH 42/42] fix: DmapCharError carries the field name, not a tuple
 of it

---
 pydarnio/exceptions/dmap_exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydarnio/exceptions/dmap_exceptions.py b/pydarnio/exceptions/dmap_exceptions.py
index b02399e..c5a243d 100644
--- a/pydarnio/exceptions/dmap_exceptions.py
+++ b/pydarnio/exceptions/dmap_exceptions.py
@@ -65,7 +65,7 @@ class DmapCharError(Exception):
         Record number the error was raised at
     """
     def __init__(self, data_name: str, rec_num: int):
-        self.data_name = data_name,
+        self.data_name = data_name
         self.rec_num = rec_num
         self.message = "Error: For field {field} at record number"\
             " {rec_num} is"\
-- 
2.43.0

