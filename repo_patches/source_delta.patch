From a91955207ec5cfbc18ee0cb1b171e05a56bee404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:44 +0000
Subject: [PATCH 01/13] fix: refuse files that define two variables with the
 same name

---
 src/io/file_reader.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 4f1fd0c..031418a 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -40,7 +40,7 @@ use crate::{
     DataVector,
     Variable,
     Version,
-    error::ReadError,
+    error::{InvalidDataSet, ReadError},
     error::parse_header_error::{ParseHeaderError, ParseHeaderErrorKind, NomError},
     io::{compute_padding_size, Offset, ABSENT_TAG, DIMENSION_TAG, VARIABLE_TAG, ATTRIBUTE_TAG},
 };
@@ -558,6 +558,10 @@ impl FileReader {
         // Append the variables
         let mut record_var_begin_offsets: Vec<Offset> = vec![];  // used to computed the number of records if necessaray
         for var_info in var_info_list.iter() {
+            // The name of each variable must be unique
+            if data_set.has_var(&var_info.name) {
+                return Err(InvalidDataSet::VariableAlreadyExists(var_info.name.clone()).into());
+            }
             let dim_refs: Vec<Rc<Dimension>> = data_set.get_dims_from_dim_ids(&var_info.dim_ids)?;
             // Create the variable the variable
             let var: &Variable = data_set.add_var_using_dim_refs(&var_info.name, dim_refs, var_info.data_type.clone())?;
-- 
2.43.0


From d2e8588cd867eb00107ad11c8839b39a39184760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:44 +0000
Subject: [PATCH 02/13] fix: keep whole-variable writes that follow a record
 write when the file is closed

---
 src/io/file_writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 299c974..7fbaa3b 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -92,8 +92,8 @@ macro_rules! impl_write_typed_var {
             }
 
             // Save the records already written
-            let num_records: usize = header_def.data_set.num_records().unwrap_or(1);
-            self.written_records.push((var, (0..num_records).collect()));
+            let all_records: Vec<usize> = (0..var.num_chunks()).collect();
+            self.update_written_records(var, &all_records)?;
             Ok(())
         }
     };
-- 
2.43.0


From af8a4ee41923bca3998bedc972fd3c1f47953c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:44 +0000
Subject: [PATCH 03/13] fix: fixed-size variables have exactly one record,
 whatever the unlimited dimension

---
 src/io/file_reader.rs | 2 +-
 src/io/file_writer.rs | 7 +++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 031418a..efd6fe8 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -470,7 +470,7 @@ impl FileReader {
         let (_var_index, var): (usize, &Variable) = self.data_set.find_var_from_name(var_name).map_err(|_err|{
             ReadError::VariableNotDefined(String::from(var_name))
         })?;
-        let num_records: usize = self.data_set.num_records().unwrap_or(1); // fixed-size variables haves exaclty one record
+        let num_records: usize = var.num_chunks(); // fixed-size variables haves exaclty one record
         if record_index >= num_records {
             return Err(ReadError::RecordIndexExceeded{index: record_index, num_records: num_records});
         }
diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 7fbaa3b..c51004a 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -109,7 +109,7 @@ macro_rules! impl_write_typed_record {
             if var.data_type != $data_type {
                 return Err(WriteError::VariableMismatchDataType{var_name: var_name.to_owned(), req:var.data_type(), get: $data_type});
             }
-            let num_records: usize = header_def.data_set.num_records().unwrap_or(1);
+            let num_records: usize = var.num_chunks();  // a fixed-size variable has exactly one record
             // Check the record index validity
             if record_index >= num_records {
                 return Err(WriteError::RecordIndexExceeded{index: record_index, num_records: num_records});
@@ -379,8 +379,6 @@ impl<'a> FileWriter<'a> {
             None => return Ok(()),
             Some(ref header_def) => header_def,
         };
-        let num_records: usize = header_def.data_set.num_records().unwrap_or(1);
-        let all_records: BTreeSet<usize> = (0..num_records).collect();
         let not_written_records: Vec<(&'a Variable, Vec<usize>)> = {
             let num_vars = header_def.data_set.vars.len();
             let mut not_written_records: Vec<(&'a Variable, Vec<usize>)> = Vec::with_capacity(num_vars);
@@ -388,8 +386,9 @@ impl<'a> FileWriter<'a> {
                 let written_records: Option<&BTreeSet<usize>> = self.written_records.iter()
                     .find(|(var_2, _written_records): &&(&'a Variable, BTreeSet<usize>)| var == *var_2)
                     .map(|(_var_2, written_records): &(&'a Variable, BTreeSet<_>)| written_records);
+                let all_records: BTreeSet<usize> = (0..var.num_chunks()).collect();
                 let not_written_record: Vec<usize> = match written_records {
-                    None => all_records.clone().into_iter().collect(),
+                    None => all_records.into_iter().collect(),
                     Some(written_records) => all_records.difference(&written_records).cloned().collect(),
                 };
                 not_written_records.push((var, not_written_record));
-- 
2.43.0


From 15517cc72d4727c074b0f3aa4b36cb9955da7dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:44 +0000
Subject: [PATCH 04/13] fix: write variables that have an attribute containing
 NaN

---
 src/io/file_writer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index c51004a..fdbe113 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -384,7 +384,7 @@ impl<'a> FileWriter<'a> {
             let mut not_written_records: Vec<(&'a Variable, Vec<usize>)> = Vec::with_capacity(num_vars);
             for var in header_def.data_set.vars.iter() {
                 let written_records: Option<&BTreeSet<usize>> = self.written_records.iter()
-                    .find(|(var_2, _written_records): &&(&'a Variable, BTreeSet<usize>)| var == *var_2)
+                    .find(|(var_2, _written_records): &&(&'a Variable, BTreeSet<usize>)| std::ptr::eq(var, *var_2))
                     .map(|(_var_2, written_records): &(&'a Variable, BTreeSet<_>)| written_records);
                 let all_records: BTreeSet<usize> = (0..var.num_chunks()).collect();
                 let not_written_record: Vec<usize> = match written_records {
@@ -452,7 +452,7 @@ impl<'a> FileWriter<'a> {
         let mut records_set: BTreeSet<usize> = records.iter().map(|index: &usize| index.clone()).collect();
         // Get already written records for the variable
         let ref mut written_records: Option<&mut BTreeSet<usize>> = self.written_records.iter_mut()
-            .find(|(var_2, _written_records): &&mut (&'a Variable, BTreeSet<usize>)| var == *var_2)
+            .find(|(var_2, _written_records): &&mut (&'a Variable, BTreeSet<usize>)| std::ptr::eq(var, *var_2))
             .map(|(_var_2, written_records): &mut (&'a Variable, BTreeSet<usize>)| written_records);
         // If at least one record has alredy been written
         if let Some(ref mut already_written_records_set) = written_records {
@@ -694,7 +694,7 @@ impl <'a> HeaderDefinition<'a> {
 
     fn get_var_metadata(&self, var: &'a Variable) -> Result<&ComputedVariableMetadata, WriteError> {
         self.data_set_metadata.vars_metadata.iter()
-            .find(|(var_2, _var_metadata): &&(&Variable,  ComputedVariableMetadata)| var == *var_2)
+            .find(|(var_2, _var_metadata): &&(&Variable,  ComputedVariableMetadata)| std::ptr::eq(var, *var_2))
             .map(|(_var, var_metadata): &(&Variable,  ComputedVariableMetadata)| var_metadata)
             .ok_or(WriteError::Unexpected)
     }
-- 
2.43.0


From 7a540bbe00ceb9abca549c9806566ed30961d120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:44 +0000
Subject: [PATCH 05/13] fix: pad the attribute values with zero bytes

---
 src/io/file_writer.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index fdbe113..01d0a5a 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -573,14 +573,20 @@ impl<'a> FileWriter<'a> {
             let bytes: [u8; 4] = (num_elements as i32).to_be_bytes();
             num_bytes += out_stream.write(&bytes)?;
             // The data of the attribute
-            num_bytes += match &attr.data {
-                DataVector::I8(slice) => FileWriter::write_chunk_i8(out_stream, slice)?,
-                DataVector::U8(slice) => FileWriter::write_chunk_u8(out_stream, slice)?,
-                DataVector::I16(slice) => FileWriter::write_chunk_i16(out_stream, slice)?,
-                DataVector::I32(slice) => FileWriter::write_chunk_i32(out_stream, slice)?,
-                DataVector::F32(slice) => FileWriter::write_chunk_f32(out_stream, slice)?,
-                DataVector::F64(slice) => FileWriter::write_chunk_f64(out_stream, slice)?,
+            let mut data_bytes: Vec<u8> = vec![];
+            let num_data_bytes: usize = match &attr.data {
+                DataVector::I8(slice) => FileWriter::write_chunk_i8(&mut data_bytes, slice)?,
+                DataVector::U8(slice) => FileWriter::write_chunk_u8(&mut data_bytes, slice)?,
+                DataVector::I16(slice) => FileWriter::write_chunk_i16(&mut data_bytes, slice)?,
+                DataVector::I32(slice) => FileWriter::write_chunk_i32(&mut data_bytes, slice)?,
+                DataVector::F32(slice) => FileWriter::write_chunk_f32(&mut data_bytes, slice)?,
+                DataVector::F64(slice) => FileWriter::write_chunk_f64(&mut data_bytes, slice)?,
             };
+            // Unlike the data of the variables, the data of the attributes is padded with zero bytes
+            data_bytes.truncate(num_elements * attr.data_type().size_of());
+            data_bytes.resize(num_data_bytes, 0_u8);
+            out_stream.write_all(&data_bytes)?;
+            num_bytes += num_data_bytes;
 
             Ok(num_bytes)
         }
-- 
2.43.0


From 7fc7cf4ce4401749b0871e529aed0806852fcecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 06/13] fix: do not parse a header that has only been partially
 read

---
 src/io/file_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index efd6fe8..a8aedb4 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -294,7 +294,7 @@ impl FileReader {
                 let start: &usize = &old_buf_start;
                 let end: &usize = &new_buf_size;
                 buffer.resize(new_buf_size, 0_u8);
-                let _num_of_bytes = input_file.read(&mut buffer[*start..*end])?;
+                input_file.read_exact(&mut buffer[*start..*end])?;
 
                 let parsing_result: Result<(DataSet, Version, Vec<VariableParsedMetadata>), ReadError>;
                 parsing_result = FileReader::parse_header(&buffer, file_size);
-- 
2.43.0


From af0f53a715f86238d73f73807e0d9ddd6b8fb79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 07/13] fix: write the whole header or return an error

---
 src/io/file_writer.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index 01d0a5a..f6b0844 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -465,12 +465,13 @@ impl<'a> FileWriter<'a> {
 
     fn write_header(&mut self) -> Result<usize, WriteError>{
         let header_def: &HeaderDefinition = self.header_def.as_ref().ok_or(WriteError::HeaderNotDefined)?;
-        self.output_file.seek(SeekFrom::Start(0))?;
+        // The header is first built in memory, then written into the output file
+        let mut header_bytes: Vec<u8> = vec![];
         let mut num_bytes = 0;
         // the magic word
-        num_bytes += self.output_file.write("CDF".as_bytes())?;
+        num_bytes += header_bytes.write("CDF".as_bytes())?;
         //the version number
-        num_bytes += self.output_file.write(&[header_def.version.clone() as u8])?;
+        num_bytes += header_bytes.write(&[header_def.version.clone() as u8])?;
         // the size of the *unlimited-size* dimension
         let num_records: u32 = match header_def.data_set.unlimited_dim.as_ref() {
             None => 0,  // No unlimited-size dim is defined
@@ -484,21 +485,23 @@ impl<'a> FileWriter<'a> {
             }
         };
         let bytes: [u8; 4] = num_records.to_be_bytes();
-        num_bytes += self.output_file.write(&bytes)?;
+        num_bytes += header_bytes.write(&bytes)?;
         // the list of the dimensions
-        num_bytes += FileWriter::write_dims_list(&mut self.output_file, &header_def.data_set.dims)?;
+        num_bytes += FileWriter::write_dims_list(&mut header_bytes, &header_def.data_set.dims)?;
         // the list of the global attributes
-        num_bytes += FileWriter::write_attrs_list(&mut self.output_file, &header_def.data_set.attrs)?;
+        num_bytes += FileWriter::write_attrs_list(&mut header_bytes, &header_def.data_set.attrs)?;
 
         // the list of the variables
         // -------------------------
         // compute the number of bytes *begin-offset* for each variable of the dataset
         let data_set_metadata: &ComputedDataSetMetadata = &header_def.data_set_metadata;
-        num_bytes += FileWriter::write_vars_list(&mut self.output_file, &data_set_metadata.vars_metadata)?;
+        num_bytes += FileWriter::write_vars_list(&mut header_bytes, &data_set_metadata.vars_metadata)?;
         let zero_padding_size: &usize = &data_set_metadata.header_zero_padding_size;
         for _ in 0..*zero_padding_size {
-            num_bytes +=  self.output_file.write(&[0_u8])?;
+            num_bytes +=  header_bytes.write(&[0_u8])?;
         }
+        self.output_file.seek(SeekFrom::Start(0))?;
+        self.output_file.write_all(&header_bytes)?;
         Ok(num_bytes)
     }
 
-- 
2.43.0


From 2660a42f950fe1db0078220e1b2573366ce0f9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 08/13] fix: do not allocate memory from the counts found in a
 header

---
 src/io/file_reader.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index a8aedb4..1106d4d 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -712,6 +712,10 @@ impl FileReader {
 
     fn parse_typed_data_elements(input: &[u8], num_of_elements: usize, data_type: DataType) -> Result<(&[u8], DataVector), ParseHeaderError>
     {
+        // Check that all bytes of the useful data are available, before allocating the memory
+        let _: (&[u8], &[u8]) = take(data_type.size_of() * num_of_elements)(input).map_err(|err: NomError|{
+            ParseHeaderError::new(err, ParseHeaderErrorKind::DataElements)
+        })?;
         // Parsed the useful data
         let (input, data_vector): (&[u8], DataVector) = match data_type {
             DataType::I8 => many_m_n(num_of_elements, num_of_elements, be_i8)(input).map(|(input, data): (&[u8], Vec<i8>)| (input, DataVector::I8(data))),
@@ -757,7 +761,7 @@ impl FileReader {
             return Ok((input, vec![]));
         }
         let (mut input, num_of_dims): (&[u8], usize) = FileReader::parse_as_usize(input)?;
-        let mut dims_list: Vec<(String, usize)> = Vec::with_capacity(num_of_dims);
+        let mut dims_list: Vec<(String, usize)> = vec![];
         for _ in 0..num_of_dims{
             let (rem_input, dim): (&[u8], (String, usize)) = parse_dim(input)?;
             input = rem_input;
@@ -785,7 +789,7 @@ impl FileReader {
             return Ok((input, vec![]));
         }
         let (mut input, num_of_attrs): (&[u8], usize) = FileReader::parse_as_usize(input)?;
-        let mut attrs_list: Vec<(String, DataVector)> = Vec::with_capacity(num_of_attrs);
+        let mut attrs_list: Vec<(String, DataVector)> = vec![];
         for _ in 0..num_of_attrs
         {
             let (rem_input, attr): (&[u8], (String, DataVector)) = parse_attr(input)?;
@@ -803,7 +807,7 @@ impl FileReader {
                 // number of dimensions
                 let (mut input, num_of_dims): (&[u8], usize) = FileReader::parse_as_usize(input)?;
                 // list of the dimension ids
-                let mut dim_ids_list: Vec<usize> = Vec::with_capacity(num_of_dims);
+                let mut dim_ids_list: Vec<usize> = vec![];
                 for _ in 0..num_of_dims {
                     let(rem_input, dim_id): (&[u8], usize) = FileReader::parse_as_usize(input)?;
                     input = rem_input;
-- 
2.43.0


From 18ce43f252da70fbfd69308c7ddbc82eb8aae1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 09/13] fix: refuse negative offsets and records that begin
 beyond the end of the file

---
 src/io/file_reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 1106d4d..5ccfb62 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -607,7 +607,7 @@ impl FileReader {
                 else {
                     // Computation of the number of records
                     let first_begin_offset: usize = record_var_begin_offsets.into_iter().map(|begin_offset: Offset| i64::from(begin_offset) as usize).min().unwrap();
-                    let all_records_size: usize = total_file_size - first_begin_offset; // the size allocated for all record data
+                    let all_records_size: usize = total_file_size.checked_sub(first_begin_offset).ok_or(ReadError::ComputationNumberOfRecords)?; // the size allocated for all record data
                     let record_size: usize = data_set.record_size().ok_or(ReadError::Unexpected)?;
                     if record_size == 0 {  // cannot be zero
                         return Err(ReadError::Unexpected);
@@ -820,12 +820,12 @@ impl FileReader {
         {
             match version {
                 Version::Classic => {
-                    be_i32(input).map(|(input, num_of_bytes): (&[u8], i32)| {
+                    verify(be_i32, |number: &i32| *number >= 0_i32)(input).map(|(input, num_of_bytes): (&[u8], i32)| {
                         (input, Offset::I32(num_of_bytes))
                     })
                 },
                 Version::Offset64Bit => {
-                    be_i64(input).map(|(input, num_of_bytes): (&[u8], i64)| {
+                    verify(be_i64, |number: &i64| *number >= 0_i64)(input).map(|(input, num_of_bytes): (&[u8], i64)| {
                         (input, Offset::I64(num_of_bytes))
                     })
                 },
-- 
2.43.0


From 9628f7214c409e53999908826ba61a69e00254b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 10/13] fix: renaming a global attribute to its own name does
 nothing

---
 src/data_set.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data_set.rs b/src/data_set.rs
index 63014e2..7c1bee5 100644
--- a/src/data_set.rs
+++ b/src/data_set.rs
@@ -1064,6 +1064,7 @@ impl DataSet {
         // Check that both names are different
         if old_attr_name == new_attr_name {
             // nothing to do
+            return Ok(());
         }
 
         // Check that the `old_attr_name` attribute has been defined
-- 
2.43.0


From 5db6e09825424bad886ce1d96b341d3dc39c7e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 11/13] fix: accept the variable sizes between 2^31 and 2^32 -
 4

---
 src/io/file_reader.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index 5ccfb62..dae4d2d 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -845,7 +845,10 @@ impl FileReader {
             // data type of the variable
             let (input, data_type): (& [u8], DataType) = FileReader::parse_data_type(input)?;
             // size occupied in each record by the variable (number of bytes)
-            let (input, chunk_size): (&[u8], Option<usize>) = FileReader::parse_as_usize_optional(input)?;
+            // (this field is redundant, and can exceed 2^31 - 1 or be meaningless for the large variables)
+            let (input, chunk_size): (&[u8], u32) = be_u32(input).map_err(|err: NomError| {
+                ParseHeaderError::new(err, ParseHeaderErrorKind::NonNegativeI32)
+            })?;
             // begin offset (number of bytes)
             let (input, begin_offset): (&[u8], Offset) = parse_offset(input, version)?;
             let var_def = VariableParsedMetadata {
@@ -885,7 +888,7 @@ struct VariableParsedMetadata {
     dim_ids: Vec<usize>,
     attrs_list: Vec<(String, DataVector)>,
     data_type: DataType,
-    _chunk_size: Option<usize>,
+    _chunk_size: u32,
     begin_offset: Offset,
 }
 
-- 
2.43.0


From 5474f8b21e67a912fc4582d4407c9bd4efc1be3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:44 +0000
Subject: [PATCH 12/13] fix: refuse the variables that are not representable or
 not in the file, instead of panicking

---
 src/data_set.rs          | 16 ++++++++++++++++
 src/data_set/variable.rs |  9 +++++++++
 src/io/file_reader.rs    | 19 ++++++++++++++++++-
 3 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/src/data_set.rs b/src/data_set.rs
index 7c1bee5..cceb07f 100644
--- a/src/data_set.rs
+++ b/src/data_set.rs
@@ -1204,6 +1204,22 @@ impl DataSet {
         }
     }
 
+    /// Returns the number of bytes required by the data of all the variables.
+    ///
+    /// Returns `None` if it is not representable as a file offset.
+    pub(crate) fn checked_data_size(&self) -> Option<usize> {
+        let num_records: usize = self.num_records().unwrap_or(0);
+        let data_size: usize = self.vars.iter().try_fold(0_usize, |sum: usize, var: &Variable| {
+            // The size of one record has to be representable, even if there is no record
+            let num_chunks: usize = if var.is_record_var() { std::cmp::max(1, num_records) } else { 1 };
+            sum.checked_add(var.checked_chunk_size()?.checked_mul(num_chunks)?)
+        })?;
+        match data_size <= (std::i64::MAX as usize) {
+            true => Some(data_size),
+            false => None,
+        }
+    }
+
     /// Returns the number of records stored in data file.
     ///
     /// Returns `None` if the data set has not an *unlimited-size* dimension.
diff --git a/src/data_set/variable.rs b/src/data_set/variable.rs
index 1eb6ab9..0030ece 100644
--- a/src/data_set/variable.rs
+++ b/src/data_set/variable.rs
@@ -284,6 +284,15 @@ impl Variable {
         return chunk_size
     }
 
+    /// Same as `chunk_size`, but returns `None` if the chunk size is not representable.
+    pub(crate) fn checked_chunk_size(&self) -> Option<usize> {
+        let skip_len: usize = if self.is_record_var() { 1 } else { 0 };
+        let chunk_size: usize = self.dims.iter().skip(skip_len).try_fold(self.data_type.size_of(), |product: usize, dim| {
+            product.checked_mul(dim.size())
+        })?;
+        chunk_size.checked_add(compute_padding_size(chunk_size))
+    }
+
     /// Returns the number of chunks.
     pub fn num_chunks(&self) -> usize {
         match self.dims.first() {
diff --git a/src/io/file_reader.rs b/src/io/file_reader.rs
index dae4d2d..435f75e 100644
--- a/src/io/file_reader.rs
+++ b/src/io/file_reader.rs
@@ -416,6 +416,10 @@ impl FileReader {
             let num_bytes: usize = chunk_len * data_type.size_of();
             compute_padding_size(num_bytes)
         };
+        if var.num_chunks() > 0 {
+            let num_bytes: usize = (var.num_chunks() - 1) * record_size + chunk_len * data_type.size_of();
+            self.check_available_bytes(begin_offset, num_bytes)?;
+        }
         let ref mut input = self.input_file;
         input.seek(SeekFrom::Start(begin_offset))?;
         // memory allocation
@@ -478,10 +482,11 @@ impl FileReader {
         // Compute the record offset from the start of the NetCDF3 file
         let var_info: &VariableParsedMetadata = self.find_var_info(var_name).ok_or(ReadError::Unexpected)?;
         let record_offset: u64 = (i64::from(var_info.begin_offset.clone()) as u64) + ((record_index * self.data_set.record_size().unwrap_or(0)) as u64);
+        let data_type: DataType = var.data_type();
+        self.check_available_bytes(record_offset, var.chunk_len() * data_type.size_of())?;
         self.input_file.seek(SeekFrom::Start(record_offset))?;
 
         // Read the data
-        let data_type: DataType = var.data_type();
         let mut data_vec: DataVector = DataVector::new(data_type, var.chunk_len());
         match data_vec {
             DataVector::I8(ref mut data) => self.input_file.read_i8_into(&mut data[..]),
@@ -596,6 +601,9 @@ impl FileReader {
             }
         }
 
+        // Check that the sizes and the positions of the data are representable
+        data_set.checked_data_size().ok_or(ReadError::Unexpected)?;
+
         if !num_records_is_determinated {
             // Case an *unlimited-size* dim s defined
             if let Some(dim) = data_set.get_unlimited_dim() {
@@ -877,6 +885,15 @@ impl FileReader {
         Ok((input, vars_list))
     }
 
+    /// Checks that the file contains the bytes to read, before allocating the memory.
+    fn check_available_bytes(&self, begin_offset: u64, num_bytes: usize) -> Result<(), ReadError> {
+        let file_size: u64 = self.input_file.metadata()?.len();
+        match begin_offset.checked_add(num_bytes as u64) {
+            Some(end_offset) if end_offset <= file_size => Ok(()),
+            _ => Err(ReadError::IOErrorKind(std::io::ErrorKind::UnexpectedEof)),
+        }
+    }
+
     fn find_var_info(&self, var_name: &str) -> Option<&VariableParsedMetadata> {
         self.vars_info.iter().find(|var_info| var_info.name == var_name)
     }
-- 
2.43.0


From 1e68fb922220b463971c4fe3fb25727aebb033a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:44 +0000
Subject: [PATCH 13/13] fix: refuse a definition whose data is not
 representable in a file

---
 src/io/file_writer.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/io/file_writer.rs b/src/io/file_writer.rs
index f6b0844..15adcf3 100644
--- a/src/io/file_writer.rs
+++ b/src/io/file_writer.rs
@@ -752,11 +752,16 @@ impl<'a> ComputedDataSetMetadata<'a> {
         // Compute the actual header size
         let header_required_size: usize = ComputedDataSetMetadata::compute_header_required_size(data_set, version.clone());
         let header_size: usize = {
-            let mut header_size: usize = std::cmp::max(header_min_size, header_required_size);
-            header_size += compute_padding_size(header_size);
-            header_size
+            let header_size: usize = std::cmp::max(header_min_size, header_required_size);
+            header_size.checked_add(compute_padding_size(header_size)).ok_or(WriteError::Unexpected)?
         };
 
+        // Check that the position of each byte of the file is representable
+        match data_set.checked_data_size().and_then(|data_size: usize| header_size.checked_add(data_size)) {
+            Some(file_size) if file_size <= (std::i64::MAX as usize) => {},
+            _ => return Err(WriteError::Unexpected),
+        }
+
         // Compute the metadata for each variable
         let mut begin_offset: usize = header_size;
         let mut vars_metadata: Vec<(usize, (&Variable, ComputedVariableMetadata))> = vec![];
-- 
2.43.0

