From 6c4ed6bc614a0561be6c37516fe870a77846a62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:02 +0000
Subject: [PATCH 1/5] fix: report the exact size_hint from the category set
 iterator

It implements ExactSizeIterator, but kept the default size_hint of (0, None), so
adaptors that derive their length from it panicked (e.g. set.iter().take(3).len()).
---
 crates/unicode-intervals/src/categories.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/unicode-intervals/src/categories.rs b/crates/unicode-intervals/src/categories.rs
index feac6d0..81e2c7d 100644
--- a/crates/unicode-intervals/src/categories.rs
+++ b/crates/unicode-intervals/src/categories.rs
@@ -498,6 +498,12 @@ impl Iterator for Iter {
         self.data.unset(index);
         Some(category)
     }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.data.len();
+        (len, Some(len))
+    }
 }
 
 impl ExactSizeIterator for Iter {
-- 
2.43.0


From 704d7725f08006375b964bdcaf2c15a0d9504e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:02 +0000
Subject: [PATCH 2/5] fix: do not build the categories tuple inside
 OnceLock::get_or_init

Allocating the tuple can run the garbage collector, hence arbitrary Python code
(CPython 3.10 and 3.11): if that switches threads, another caller of categories()
blocks on the cell while it holds the GIL, and a re-entrant caller blocks on
itself. Build first, then publish.
---
 crates/unicode-intervals-py/src/lib.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/crates/unicode-intervals-py/src/lib.rs b/crates/unicode-intervals-py/src/lib.rs
index a5d00ee..afd0065 100644
--- a/crates/unicode-intervals-py/src/lib.rs
+++ b/crates/unicode-intervals-py/src/lib.rs
@@ -152,17 +152,19 @@ fn query(
 #[pyo3(signature = (version=None))]
 fn categories(py: Python<'_>, version: Option<PyUnicodeVersion>) -> PyResult<Py<PyTuple>> {
     let core_version: CoreVersion = version.map_or_else(CoreVersion::latest, Into::into);
-    let cached = CATEGORIES_CACHE[core_version as usize].get_or_init(|| {
-        let names = core_version
-            .normalized_categories()
-            .iter()
-            .map(ToString::to_string)
-            .collect::<Vec<_>>();
-        PyTuple::new(py, names)
-            .expect("category names are valid")
-            .unbind()
-    });
-    Ok(cached.clone_ref(py))
+    let slot = &CATEGORIES_CACHE[core_version as usize];
+    if let Some(cached) = slot.get() {
+        return Ok(cached.clone_ref(py));
+    }
+    // Build the tuple before touching the cell: allocating it may run other Python code (garbage
+    // collection), and a thread waiting on the cell would do so while holding the GIL.
+    let names = core_version
+        .normalized_categories()
+        .iter()
+        .map(ToString::to_string)
+        .collect::<Vec<_>>();
+    let built = PyTuple::new(py, names)?.unbind();
+    Ok(slot.get_or_init(|| built).clone_ref(py))
 }
 
 /// Expand major classes (e.g. ``"N"`` -> ``"Nd"``, ``"Nl"``, ``"No"``) and validate category names.
-- 
2.43.0


From a594d75a521017d52ab65e876c2dec4309ed0442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:17 +0000
Subject: [PATCH 3/5] fix: accept any iterable of category names in the Python
 API

The type stub declares Iterable[str], but sets, generators and dict views raised
TypeError. A bare string is still rejected.
---
 crates/unicode-intervals-py/src/lib.rs | 40 +++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/crates/unicode-intervals-py/src/lib.rs b/crates/unicode-intervals-py/src/lib.rs
index afd0065..1539493 100644
--- a/crates/unicode-intervals-py/src/lib.rs
+++ b/crates/unicode-intervals-py/src/lib.rs
@@ -1,4 +1,9 @@
-use pyo3::{exceptions::PyValueError, prelude::*, types::PyTuple, wrap_pyfunction};
+use pyo3::{
+    exceptions::{PyTypeError, PyValueError},
+    prelude::*,
+    types::{PyString, PyTuple},
+    wrap_pyfunction, Borrowed,
+};
 use std::sync::OnceLock;
 use unicode_intervals_core::{UnicodeCategory, UnicodeCategorySet, UnicodeVersion as CoreVersion};
 
@@ -90,10 +95,31 @@ impl PyUnicodeVersion {
     }
 }
 
-fn parse_categories(names: Option<Vec<String>>) -> PyResult<Option<UnicodeCategorySet>> {
+/// Category names from any iterable of strings, except a bare string.
+struct CategoryNames(Vec<String>);
+
+impl<'a, 'py> FromPyObject<'a, 'py> for CategoryNames {
+    type Error = PyErr;
+
+    fn extract(obj: Borrowed<'a, 'py, PyAny>) -> PyResult<Self> {
+        if obj.is_instance_of::<PyString>() {
+            return Err(PyTypeError::new_err(
+                "expected an iterable of category names, got a single `str`",
+            ));
+        }
+        // No `collect`: PyO3's size hint imports `operator` behind a lock that is not re-entrant.
+        let mut names = Vec::new();
+        for name in obj.try_iter()? {
+            names.push(name?.extract::<String>()?);
+        }
+        Ok(CategoryNames(names))
+    }
+}
+
+fn parse_categories(names: Option<CategoryNames>) -> PyResult<Option<UnicodeCategorySet>> {
     match names {
         None => Ok(None),
-        Some(list) => {
+        Some(CategoryNames(list)) => {
             let mut set = UnicodeCategorySet::new();
             for name in list {
                 let category: UnicodeCategory = name
@@ -118,8 +144,8 @@ fn parse_categories(names: Option<Vec<String>>) -> PyResult<Option<UnicodeCatego
 #[allow(clippy::too_many_arguments)]
 fn query(
     py: Python<'_>,
-    categories: Option<Vec<String>>,
-    exclude_categories: Option<Vec<String>>,
+    categories: Option<CategoryNames>,
+    exclude_categories: Option<CategoryNames>,
     min_codepoint: Option<u32>,
     max_codepoint: Option<u32>,
     include_characters: &str,
@@ -172,11 +198,11 @@ fn categories(py: Python<'_>, version: Option<PyUnicodeVersion>) -> PyResult<Py<
 #[pyo3(signature = (categories, version=None))]
 fn as_general_categories(
     py: Python<'_>,
-    categories: Vec<String>,
+    categories: CategoryNames,
     version: Option<PyUnicodeVersion>,
 ) -> PyResult<Py<PyTuple>> {
     let core_version: CoreVersion = version.map_or_else(CoreVersion::latest, Into::into);
-    let expanded = unicode_intervals_core::as_general_categories(&categories, core_version)
+    let expanded = unicode_intervals_core::as_general_categories(&categories.0, core_version)
         .map_err(|e| PyValueError::new_err(e.to_string()))?;
     let names: Vec<String> = expanded.iter().map(ToString::to_string).collect();
     Ok(PyTuple::new(py, names)?.into())
-- 
2.43.0


From ba5a396fb68c624c360a9383cdab71e45a453523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:19 +0000
Subject: [PATCH 4/5] fix: generator mistakes the header's UCD directory path
 for a category entry

transform_code took the first line that contains a category's name. The header
of ucd-generate's output repeats the command line with the path of the UCD
directory: when TMPDIR contains a name such as Control or Format, the header
line was changed instead and the entry stayed tagged.
---
 generate_tables.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/generate_tables.py b/generate_tables.py
index 94e6f5c..aee3f75 100644
--- a/generate_tables.py
+++ b/generate_tables.py
@@ -53,8 +53,10 @@ def transform_code(code: bytes) -> bytes:
     )
     lines = code.splitlines()
     for category in CATEGORIES:
-        idx = next((i for i, line in enumerate(lines) if category.encode() in line), None)
-        lines[idx] = lines[idx].replace(f"(\"{category}\", ".encode(), b"").replace(b"),", b",")
+        # Not the bare name: the header has the path of the UCD directory, which may contain it
+        tag = f"(\"{category}\", ".encode()
+        idx = next((i for i, line in enumerate(lines) if tag in line), None)
+        lines[idx] = lines[idx].replace(tag, b"").replace(b"),", b",")
     return b"\n".join(lines)
 
 
-- 
2.43.0


From daed7a539e9c9cac454a42efbc8a9c601d8066fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:58 +0000
Subject: [PATCH 5/5] fix: pass the UCD directory to ucd-generate as an
 argument, not through a shell

With a TMPDIR that has a space or a shell metacharacter in it ucd-generate got
other arguments.
---
 generate_tables.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/generate_tables.py b/generate_tables.py
index aee3f75..28f1ff9 100644
--- a/generate_tables.py
+++ b/generate_tables.py
@@ -63,12 +63,13 @@ def transform_code(code: bytes) -> bytes:
 def ucd_generate(directory: str) -> bytes:
     result = subprocess.run(
         [
-            f"ucd-generate general-category {directory} "
+            "ucd-generate",
+            "general-category",
+            directory,
             # Exclude groups that include other groups
-            f"--exclude=Separator,Symbol,Cased_Letter,Letter,Mark,Number,Other,Punctuation",
+            "--exclude=Separator,Symbol,Cased_Letter,Letter,Mark,Number,Other,Punctuation",
         ],
         capture_output=True,
-        shell=True,
         check=True,
     )
     return result.stdout
-- 
2.43.0

