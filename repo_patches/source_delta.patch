From aaca40113687a405fe8b09e6798a293ee1355896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 01/58] fix: pass bytes to xxhash, which no longer accepts str

---
 mixtera/utils/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mixtera/utils/utils.py b/mixtera/utils/utils.py
index a879db4..c8f258c 100644
--- a/mixtera/utils/utils.py
+++ b/mixtera/utils/utils.py
@@ -106,7 +106,7 @@ def hash_list(string_list: list[str]) -> int:
     concatenated_string = "\0".join(string_list)
 
     # Compute the hash using xxhash
-    hash_result = xxhash.xxh64_intdigest(concatenated_string)
+    hash_result = xxhash.xxh64_intdigest(concatenated_string.encode("utf-8"))
 
     return hash_result
 
@@ -142,7 +142,7 @@ def hash_dict(d: dict[str, list[str]]) -> int:
     concatenated_string = "\0".join(concatenated_items)
 
     # Compute the hash using xxhash
-    hash_result = xxhash.xxh64_intdigest(concatenated_string)
+    hash_result = xxhash.xxh64_intdigest(concatenated_string.encode("utf-8"))
 
     return hash_result
 
-- 
2.43.0


From 096d9fd38915c16dc5ae48afd2994edc80144714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 02/58] fix: fetch query results with DuckDB versions that
 dropped fetch_arrow_table

---
 mixtera/core/query/query.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/query/query.py b/mixtera/core/query/query.py
index d92c269..0df09bd 100644
--- a/mixtera/core/query/query.py
+++ b/mixtera/core/query/query.py
@@ -1,6 +1,7 @@
 from pathlib import Path
 from typing import Any
 
+import pyarrow as pa
 from loguru import logger
 
 from mixtera.core.datacollection import MixteraDataCollection
@@ -11,6 +12,13 @@ from mixtera.core.query.query_result import QueryResult
 from .mixture import Mixture
 
 
+def _fetch_arrow_table(result: Any) -> pa.Table:
+    # Recent DuckDB versions only have `to_arrow_table`, older ones only have `fetch_arrow_table` on connections.
+    if hasattr(result, "to_arrow_table"):
+        return result.to_arrow_table()
+    return result.fetch_arrow_table()
+
+
 class Query:
     def __init__(self, job_id: str) -> None:
         self.query_plan = QueryPlan()
@@ -108,7 +116,7 @@ class Query:
 
         # First, we need to get the column names from the base query
         columns_query = f"SELECT * FROM ({base_query}) LIMIT 0"
-        columns = conn.execute(columns_query, parameters).fetch_arrow_table().column_names
+        columns = _fetch_arrow_table(conn.execute(columns_query, parameters)).column_names
 
         # Determine group columns (all columns except 'sample_id')
         group_cols = ["dataset_id", "file_id"] + sorted(
@@ -152,7 +160,7 @@ class Query:
 
         self.results = QueryResult(
             mdc,
-            mdc._connection.execute(full_query, parameters).fetch_arrow_table(),
+            _fetch_arrow_table(mdc._connection.execute(full_query, parameters)),
             mixture,
             query_log_dir=query_log_dir,
         )
-- 
2.43.0


From 13bcd9fda0e13e9024e8642c8420c8251eee453a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 03/58] fix: hash mixture keys with numeric property values
 without reordering them

---
 mixtera/utils/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mixtera/utils/utils.py b/mixtera/utils/utils.py
index c8f258c..aa0a9c3 100644
--- a/mixtera/utils/utils.py
+++ b/mixtera/utils/utils.py
@@ -125,9 +125,8 @@ def hash_dict(d: dict[str, list[str]]) -> int:
 
     # Process each key in sorted order for deterministic hashing
     for key in sorted(d.keys()):
-        # Get and sort the list of strings associated with the key
-        value_list = d[key]
-        value_list.sort()
+        # Sort the values associated with the key by their string form (they may be numbers as well)
+        value_list = sorted(str(value) for value in d[key])
 
         # Concatenate the sorted list of strings with a separator
         concatenated_values = "\0".join(value_list)
-- 
2.43.0


From 4625183a8f4ba2295011d5c54d59dbd8ec57a9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 04/58] fix: reject ImageNet samples without a class label
 instead of storing the label 'None'

---
 mixtera/core/datacollection/index/parser/parser_collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/datacollection/index/parser/parser_collection.py b/mixtera/core/datacollection/index/parser/parser_collection.py
index def585b..a5993ac 100644
--- a/mixtera/core/datacollection/index/parser/parser_collection.py
+++ b/mixtera/core/datacollection/index/parser/parser_collection.py
@@ -75,11 +75,11 @@ class ImagenetWebDatasetMetadataParser(MetadataParser):
         ]
 
     def parse(self, line_number: int, payload: Any, **kwargs: Optional[dict[Any, Any]]) -> None:
-        class_label = str(payload.get(".cls"))
+        class_label = payload.get(".cls")
         if class_label is None:
             raise RuntimeError("Property 'class_label' is not nullable and is missing.")
 
-        self.add_metadata(sample_id=line_number, class_label=class_label)
+        self.add_metadata(sample_id=line_number, class_label=str(class_label))
 
 
 class FineWebMetadataParser(MetadataParser):
-- 
2.43.0


From 5961522a1ec39cccb8550e94cf9aceeb99fe943d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 05/58] fix: refuse to write sizes that do not fit the signed
 size header

---
 mixtera/network/network_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mixtera/network/network_utils.py b/mixtera/network/network_utils.py
index 869a749..c1dab15 100644
--- a/mixtera/network/network_utils.py
+++ b/mixtera/network/network_utils.py
@@ -72,9 +72,9 @@ async def write_bytes_obj(
     """
     if data is None:
         zero_len = 0
-        writer.write(zero_len.to_bytes(size_bytes, "big"))
+        writer.write(zero_len.to_bytes(size_bytes, "big", signed=True))
     else:
-        writer.write(len(data).to_bytes(size_bytes, "big"))
+        writer.write(len(data).to_bytes(size_bytes, "big", signed=True))
         writer.write(data)
 
     if drain:
@@ -172,7 +172,7 @@ async def write_utf8_string(string: str, size_bytes: int, writer: asyncio.Stream
     """
 
     training_id_bytes = string.encode(encoding="utf-8")
-    writer.write(len(training_id_bytes).to_bytes(size_bytes, "big"))
+    writer.write(len(training_id_bytes).to_bytes(size_bytes, "big", signed=True))
     writer.write(training_id_bytes)
 
     if drain:
@@ -189,7 +189,7 @@ async def write_pickeled_object(obj: Any, size_bytes: int, writer: asyncio.Strea
         drain (bool): Whether to call writer.drain() afterwards. Defaults to True.
     """
     obj_bytes = dill.dumps(obj)
-    writer.write(len(obj_bytes).to_bytes(size_bytes, "big"))
+    writer.write(len(obj_bytes).to_bytes(size_bytes, "big", signed=True))
     writer.write(obj_bytes)
 
     if drain:
-- 
2.43.0


From aed0364e9e4b411c9412902fabfe451384e2a33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 06/58] fix: reject unsorted or overlapping ranges of Parquet
 files like the other dataset types do

---
 .../core/datacollection/datasets/parquet_dataset.py    | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mixtera/core/datacollection/datasets/parquet_dataset.py b/mixtera/core/datacollection/datasets/parquet_dataset.py
index efbf26a..9ac64d7 100644
--- a/mixtera/core/datacollection/datasets/parquet_dataset.py
+++ b/mixtera/core/datacollection/datasets/parquet_dataset.py
@@ -53,6 +53,16 @@ class ParquetDataset(Dataset):
     ) -> Iterable[str]:
         del server_connection  # TODO(#137): We need a open interface with a regular file object to use that.
 
+        last_r_start, last_r_end = -1, 0
+        for r_start, r_end in range_list:
+            if r_start < last_r_start:
+                raise RuntimeError(f"Ranges not sorted by start ({last_r_start} vs {r_start})")
+
+            if last_r_end > r_start:
+                raise RuntimeError(f"Overlapping ranges: start at {r_start} but previous ended at {last_r_end}")
+
+            last_r_start, last_r_end = r_start, r_end
+
         with open(file, "rb") as f:
             parquet_file = pq.ParquetFile(f)
             total_row_groups = parquet_file.num_row_groups
-- 
2.43.0


From 871d2ad55606aa6aa447fdd4601a6db9b79fce46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 07/58] fix: keep the decompressed content of gzip-compressed
 members without a decoder

---
 mixtera/utils/webdataset_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mixtera/utils/webdataset_utils.py b/mixtera/utils/webdataset_utils.py
index 558f759..ff7794a 100644
--- a/mixtera/utils/webdataset_utils.py
+++ b/mixtera/utils/webdataset_utils.py
@@ -69,8 +69,8 @@ def decode(sample: dict[str, Any], decode_image: bool = True) -> dict[str, Any]:
         if extension in ["gz"]:
             decompressed = gzip.decompress(stream.read())
             stream = io.BytesIO(decompressed)
+            sample[key] = stream
             if len(extensions) < 2:
-                sample[key] = stream
                 continue
             extension = extensions[-2]
         if key.startswith("__"):
-- 
2.43.0


From a004bf06468f6df2e578e41a78de6ac3b4841cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 08/58] fix: do not report directories as files of a dataset

---
 mixtera/core/filesystem/local_filesystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/filesystem/local_filesystem.py b/mixtera/core/filesystem/local_filesystem.py
index 0ab832d..b9019f2 100644
--- a/mixtera/core/filesystem/local_filesystem.py
+++ b/mixtera/core/filesystem/local_filesystem.py
@@ -42,4 +42,5 @@ class LocalFileSystem(FileSystem):
             raise RuntimeError(f"Path {n_dir_path} does not exist!")
 
         for pth in n_dir_path.glob(f"*.{extension}"):
-            yield str(pth)
+            if not pth.is_dir():
+                yield str(pth)
-- 
2.43.0


From a64986bdf812dc89e849bf6688a3e39de372a059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 09/58] fix: reach every property combination when chunking
 without a mixture

---
 mixtera/core/query/query_result.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 7686459..2ed4d65 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -511,11 +511,16 @@ class QueryResult:
                     self._persist_mixture_log()
 
                 chunk = None
+                num_skips = 0
                 while len(empty_key_idx) < len(chunker_index_keys) and chunk is None:
                     chunker_index_keys_idx = (chunker_index_keys_idx + 1) % len(chunker_index_keys)
                     if chunker_index_keys_idx in empty_key_idx:
-                        # Note that this can be removed but needs some adjustments in the tests (only impacts ordering)
-                        chunker_index_keys_idx = (chunker_index_keys_idx + 1) % len(chunker_index_keys)
+                        num_skips += 1
+                        if num_skips <= len(chunker_index_keys):
+                            # Note that this can be removed but needs some adjustments in the tests
+                            # (only impacts ordering). However, skipping two keys at a time might never
+                            # reach the remaining keys, so we only do this for one round.
+                            chunker_index_keys_idx = (chunker_index_keys_idx + 1) % len(chunker_index_keys)
                         continue
 
                     key = chunker_index_keys[chunker_index_keys_idx]
-- 
2.43.0


From 12644bfec1ad545f8c7580eb920ea45ccb564c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:04 +0000
Subject: [PATCH 10/58] fix: leave mixture keys with zero rows out of chunk
 generation

---
 mixtera/core/query/query_result.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 2ed4d65..495c62e 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -318,7 +318,8 @@ class QueryResult:
                 logger.error("Hard-stopping chunk generation after 10 unsucessful tries.")
                 return
 
-            mixture = deepcopy(base_mixture.mixture_in_rows())
+            # Keys with a share of zero rows do not take part in the chunk
+            mixture = {key: rows for key, rows in deepcopy(base_mixture.mixture_in_rows()).items() if rows > 0}
             is_strict = base_mixture.strict
 
             chunk_success = False
@@ -359,6 +360,8 @@ class QueryResult:
                     # Sort to guarantee same handling for semantically same mixtures
                     for mixture_key in sorted(remaining_sizes.keys()):
                         # logger.debug(f"Handling key {mixture_key}, remaining sizes: {remaining_sizes}")
+                        if remaining_sizes[mixture_key] == 0:
+                            continue  # Nothing (more) to take for this key
 
                         for component_key, iterator in sorted(component_iterators.items(), key=lambda x: x[0]):
                             # logger.debug(f"Checking component key {component_key}")
-- 
2.43.0


From b486928dc2488d226c5ca6b0df3129819b4e5b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:33 +0000
Subject: [PATCH 11/58] fix: honour the mixture sent after a chunk could not be
 generated

---
 mixtera/core/query/query_result.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 495c62e..b5508df 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -503,7 +503,7 @@ class QueryResult:
                 else:
                     logger.debug("Not enough data, ending chunk generation")
                     no_success_counter += 1
-                    yield None
+                    base_mixture, target_chunk_index = yield None
             else:
                 if previous_mixture is not None or current_chunk_index == 0:
                     logger.debug("Obtained new None mixture.")
-- 
2.43.0


From 1b811efe368f99e9ec9329ec04396488c6830a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 12/58] fix: only count chunks handed out as chunks to replay

---
 mixtera/core/query/query_result.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index b5508df..c549659 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -590,7 +590,6 @@ class QueryResult:
                     self._num_returns_gen == 0
                 ), f"Generator was not reset properly. Got {self._num_returns_gen} returns."
 
-            self._num_returns_gen += 1
             result = self._generator.send((self._mixture, chunk_target_index))
             if result is None:
                 # In case we reach end of chunks (for now),
@@ -600,6 +599,9 @@ class QueryResult:
 
                 if self.stop_on_none:
                     raise StopIteration
+            else:
+                # Only count chunks that we actually handed out, since this is what needs to be replayed
+                self._num_returns_gen += 1
 
             return result
 
-- 
2.43.0


From d94f1997570bd8d40275ddf38287da3ec13f9c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 13/58] fix: give back the data taken by an unsuccessful
 attempt to generate a chunk

---
 mixtera/core/query/query_result.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index c549659..75edad4 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -306,6 +306,9 @@ class QueryResult:
             except StopIteration:
                 return
 
+        # Number of samples per component that are part of a chunk, to be able to undo an unsuccessful attempt
+        num_consumed: dict[MixtureKey, int] = defaultdict(int)
+
         previous_mixture = None
         base_mixture, target_chunk_index = yield
         # We allow to re-query the latest chunk after not being able to generate one,
@@ -352,6 +355,7 @@ class QueryResult:
                     key: size for key, size in mixture.items()
                 }
                 original_sizes = remaining_sizes.copy()
+                num_taken: dict[MixtureKey, int] = defaultdict(int)
 
                 global_progress_made = True
                 while global_progress_made and any(remaining_sizes.values()):
@@ -382,6 +386,7 @@ class QueryResult:
                                         chunk_size <= remaining_sizes[mixture_key]
                                     ), f"We took too much data ({chunk_size}) for {mixture_key}: {remaining_sizes}"
                                     remaining_sizes[mixture_key] = remaining_sizes[mixture_key] - chunk_size
+                                    num_taken[component_key] += chunk_size
 
                                     # logger.debug(
                                     #    f"Received chunk size: {chunk_size} for {mixture_key} from {component_key}"
@@ -481,6 +486,8 @@ class QueryResult:
                 if remaining_sizes and all(size == 0 for size in remaining_sizes.values()):
                     chunk_success = True
                     no_success_counter = 0
+                    for component_key, num_samples in num_taken.items():
+                        num_consumed[component_key] += num_samples
                     if current_chunk_index == target_chunk_index:
                         logger.debug(f"Yielding chunk {current_chunk_index}.")
                         self._persist_chunk_idx(current_chunk_index)
@@ -503,6 +510,13 @@ class QueryResult:
                 else:
                     logger.debug("Not enough data, ending chunk generation")
                     no_success_counter += 1
+                    # Give back the data we have taken, as another mixture might be able to use it
+                    for component_key in num_taken:
+                        iterator = self._generate_per_mixture_component_chunks(self._chunker_index, component_key)
+                        next(iterator)
+                        if num_consumed[component_key] > 0:
+                            iterator.send(num_consumed[component_key])
+                        component_iterators[component_key] = iterator
                     base_mixture, target_chunk_index = yield None
             else:
                 if previous_mixture is not None or current_chunk_index == 0:
@@ -537,6 +551,9 @@ class QueryResult:
                     return  # No need to yield None, if ArbitraryMixture is exhausted, we will never be able to continue
 
                 # Chunk has been successfully generated
+                num_consumed[key] += sum(
+                    end - start for files in chunk.values() for ranges in files.values() for start, end in ranges
+                )
                 if current_chunk_index == target_chunk_index:
                     chunk = {chunker_index_keys[chunker_index_keys_idx]: chunk}
                     self._persist_chunk_idx(current_chunk_index)
-- 
2.43.0


From 5d7b81ee6753a8c88a575453f06314da82f02e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 14/58] fix: do not mistake a sample for the end of the stream
 of a reader process

---
 mixtera/core/query/result_chunk.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/query/result_chunk.py b/mixtera/core/query/result_chunk.py
index 728d208..4af77b9 100644
--- a/mixtera/core/query/result_chunk.py
+++ b/mixtera/core/query/result_chunk.py
@@ -34,7 +34,13 @@ Workloads = list[Workload]
 Sample = str | list[int]
 
 MULTIPROCESSING_TIMEOUT = 90
-END_OF_STREAM_OBJECT = "END_OF_STREAM"
+
+
+class EndOfStream:
+    """Marks the end of the stream of a reader process. This is a class such that no sample can be mistaken for it."""
+
+
+END_OF_STREAM_OBJECT = EndOfStream()
 
 original_start = mp.Process.start
 
@@ -376,7 +382,7 @@ class ResultChunk:
                     raise RuntimeError(
                         "Queue timeout reached but process is still alive. Something went wrong."
                     ) from exc
-                if instance == END_OF_STREAM_OBJECT:
+                if isinstance(instance, EndOfStream):
                     proc.join()
                     processes_to_remove.append((queue, proc))
                     continue
-- 
2.43.0


From 55b6886af6a4ac5237f6c3fe3f55b8eeec4ed2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 15/58] fix: report failed reader processes instead of ending
 the stream

---
 mixtera/core/query/result_chunk.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mixtera/core/query/result_chunk.py b/mixtera/core/query/result_chunk.py
index 4af77b9..07e4f5a 100644
--- a/mixtera/core/query/result_chunk.py
+++ b/mixtera/core/query/result_chunk.py
@@ -377,6 +377,8 @@ class ResultChunk:
                 except Empty as exc:
                     if not proc.is_alive():
                         proc.join()
+                        if isinstance(proc.exitcode, int) and proc.exitcode != 0:
+                            raise RuntimeError(f"A reader process failed with exit code {proc.exitcode}.") from exc
                         processes_to_remove.append((queue, proc))
                         continue
                     raise RuntimeError(
-- 
2.43.0


From 1dd8602f45ef1f45d42727ac3347f8e21369b75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 16/58] fix: surface failures while prefetching the first
 sample

---
 mixtera/utils/prefetch_iterator.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mixtera/utils/prefetch_iterator.py b/mixtera/utils/prefetch_iterator.py
index 8aae563..90d7219 100644
--- a/mixtera/utils/prefetch_iterator.py
+++ b/mixtera/utils/prefetch_iterator.py
@@ -10,14 +10,16 @@ class PrefetchFirstItemIterator(Iterator[T]):
         self.prefetch_event = Event()
         self.first_item_consumed = False
         self.first_item: T | None = None
+        self.first_exception: BaseException | None = None
         self.prefetch_thread = Thread(target=self._prefetch)
         self.prefetch_thread.start()
 
     def _prefetch(self) -> None:
         try:
             self.first_item = next(self.iterator)
-        except StopIteration:
-            self.first_item = None
+        except BaseException as exc:  # pylint: disable=broad-exception-caught
+            # Includes StopIteration. Raised when the first item is requested.
+            self.first_exception = exc
         finally:
             self.prefetch_event.set()
 
@@ -25,9 +27,9 @@ class PrefetchFirstItemIterator(Iterator[T]):
         if not self.first_item_consumed:
             self.prefetch_event.wait()
             self.first_item_consumed = True
-            if self.first_item is not None:
-                return self.first_item
+            if self.first_exception is not None:
+                raise self.first_exception
 
-            raise StopIteration()
+            return self.first_item  # type: ignore[return-value]
 
         return next(self.iterator)
-- 
2.43.0


From fae53d5fe1480ca37d3d943d665fde5171d2e585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 17/58] fix: surface failures of the tokenizing background
 thread

---
 mixtera/utils/tokenizing_iterator.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/mixtera/utils/tokenizing_iterator.py b/mixtera/utils/tokenizing_iterator.py
index 5ff8a71..80ba597 100644
--- a/mixtera/utils/tokenizing_iterator.py
+++ b/mixtera/utils/tokenizing_iterator.py
@@ -129,14 +129,26 @@ class ThreadedTokenizingIterator:
         self.eos = False
         self.yielded_samples = 0
 
+        self.error: Exception | None = None
+
         self.lock = threading.Lock()
         self.condition = threading.Condition(self.lock)
-        self.background_thread = threading.Thread(target=self.prefetch_loop)
+        self.background_thread = threading.Thread(target=self.run_prefetch_loop)
         self.background_thread.start()
 
     def __iter__(self) -> "ThreadedTokenizingIterator":
         return self
 
+    def run_prefetch_loop(self) -> None:
+        try:
+            self.prefetch_loop()
+        except Exception as exc:  # pylint: disable=broad-exception-caught
+            # Hand over the error to the consumer, which would otherwise wait forever.
+            with self.lock:
+                self.error = exc
+                self.eos = True
+                self.condition.notify_all()
+
     def prefetch_loop(self) -> None:
         while not self.eos:
             texts = []
@@ -186,6 +198,9 @@ class ThreadedTokenizingIterator:
                     self.yielded_samples += 1
                     return chunk
 
+                if self.error is not None:
+                    raise self.error
+
                 if self.eos:
                     if self.yielded_samples == 0 and current_length > 0 and self.at_least_one_sample:
                         # Pad the remaining tokens to reach the desired length
-- 
2.43.0


From 6e5c9ab564b380bda2502e2413898ee95346efba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 18/58] fix: finish best-effort windowed reading when only keys
 with a tiny share are left

---
 mixtera/core/query/result_chunk.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mixtera/core/query/result_chunk.py b/mixtera/core/query/result_chunk.py
index 07e4f5a..136bba0 100644
--- a/mixtera/core/query/result_chunk.py
+++ b/mixtera/core/query/result_chunk.py
@@ -448,6 +448,10 @@ class ResultChunk:
                 if nothing_yielded_window:
                     break
 
+            if items_yielded == 0:
+                # Only keys whose share of a window is below one sample are left, continue with whatever they have.
+                element_counts = [(key, max(count, 1)) for key, count in element_counts]
+
     def _iterate_overall_mixture(
         self, active_iterators: dict[MixtureKey, Iterator[Sample]]
     ) -> Iterator[tuple[int, Sample]]:
-- 
2.43.0


From faf29a585b5d6c271bd387240d0db3a0d610dbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 19/58] fix: compute the shares of a window exactly

---
 mixtera/core/query/result_chunk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mixtera/core/query/result_chunk.py b/mixtera/core/query/result_chunk.py
index 136bba0..3e3bfd0 100644
--- a/mixtera/core/query/result_chunk.py
+++ b/mixtera/core/query/result_chunk.py
@@ -488,7 +488,7 @@ class ResultChunk:
 
         # Determine the per-property combination batch counts
         initial_counts = [
-            (key, int(self._window_size * (value / self._chunk_size))) for key, value in self._mixture.items()
+            (key, self._window_size * value // self._chunk_size) for key, value in self._mixture.items()
         ]
         total_counts = sum(count for _, count in initial_counts)
         remainder = self._window_size - total_counts
-- 
2.43.0


From 3bb56a7c62187aa610dd2cf754bc88e5bac19f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 20/58] fix: tokenize with transformers versions that dropped
 batch_encode_plus

---
 mixtera/utils/tokenizing_iterator.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/mixtera/utils/tokenizing_iterator.py b/mixtera/utils/tokenizing_iterator.py
index 80ba597..5cd5f62 100644
--- a/mixtera/utils/tokenizing_iterator.py
+++ b/mixtera/utils/tokenizing_iterator.py
@@ -2,6 +2,12 @@ import threading
 from typing import Any, Iterator
 
 
+def encode_batch(tokenizer: Any, texts: list[str]) -> Any:
+    # transformers v5 dropped batch_encode_plus in favor of calling the tokenizer directly
+    encode = tokenizer.batch_encode_plus if hasattr(tokenizer, "batch_encode_plus") else tokenizer
+    return encode(texts, return_attention_mask=False, return_token_type_ids=False)
+
+
 class TokenizingIterator:
     def __init__(
         self,
@@ -48,11 +54,7 @@ class TokenizingIterator:
                 break
 
         if texts:
-            encoded_batch = self.tokenizer.batch_encode_plus(
-                texts,
-                return_attention_mask=False,
-                return_token_type_ids=False,
-            )
+            encoded_batch = encode_batch(self.tokenizer, texts)
 
             if self.use_bos_token:
                 bos_id = self.tokenizer.bos_token_id
@@ -160,11 +162,7 @@ class ThreadedTokenizingIterator:
                     local_eos = True
 
             if texts:
-                encoded_batch = self.tokenizer.batch_encode_plus(
-                    texts,
-                    return_attention_mask=False,
-                    return_token_type_ids=False,
-                )
+                encoded_batch = encode_batch(self.tokenizer, texts)
                 if self.use_bos_token:
                     bos_id = self.tokenizer.bos_token_id
                     for idx, ids in enumerate(encoded_batch["input_ids"]):
-- 
2.43.0


From 9441225ee7f18dd2d1daa23a07fde8c12ed147bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 21/58] fix: keep the state of ADO aligned with the number of
 domains

---
 mixtera/core/algo/ado/ado.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/algo/ado/ado.py b/mixtera/core/algo/ado/ado.py
index cb006d6..4b4b214 100644
--- a/mixtera/core/algo/ado/ado.py
+++ b/mixtera/core/algo/ado/ado.py
@@ -594,9 +594,14 @@ class AdoDynamicMixing(DynamicMixingAlgorithm):
             counts: A numpy array of counts per domain.
         """
         # We first need to catch the number of internal domains, otherwise we will not trigger the following condition.
-        num_incoming_domains = len(losses)
         num_internal_domains = len(self.losses)
 
+        # The report might not cover all domains we know of, i.e., domains that have not been sampled (lately)
+        num_incoming_domains = max(len(losses), num_internal_domains, len(self.initial_mixture))
+        if (size_diff := num_incoming_domains - len(losses)) > 0:
+            losses = np.concatenate([losses, np.zeros(size_diff, dtype=losses.dtype)])
+            counts = np.concatenate([counts, np.zeros(size_diff, dtype=counts.dtype)])
+
         if self.log_counts is not None:
             self.log_counts.append(counts.tolist())
 
@@ -617,6 +622,9 @@ class AdoDynamicMixing(DynamicMixingAlgorithm):
                 self.pi_bar_t_minus_1 = np.concatenate(
                     [self.pi_bar_t_minus_1, np.zeros(size_diff, dtype=self.pi_bar_t_minus_1.dtype)]
                 )
+            if self.scaling_law_params is not None:
+                # There is no scaling law for the new domains yet, use the parameters for domains with too little data
+                self.scaling_law_params = np.concatenate([self.scaling_law_params, np.full((size_diff, 3), -1.0)])
 
         # Keep track of per-step counts and losses
         # Adjust the lengths if necessary
-- 
2.43.0


From b96539498cf1a62412cc3341d591b02df0383470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:30 +0000
Subject: [PATCH 22/58] fix: recompute the rows of a mixture when its chunk
 size is adjusted

---
 mixtera/core/query/mixture/dynamic_mixture.py    |  4 ++++
 .../query/mixture/hierarchical_static_mixture.py |  5 +++++
 mixtera/core/query/mixture/mixture.py            | 16 ++++++++++++++++
 mixtera/core/query/mixture/mixture_schedule.py   |  4 ++++
 mixtera/core/query/mixture/static_mixture.py     |  8 ++++++--
 5 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/query/mixture/dynamic_mixture.py b/mixtera/core/query/mixture/dynamic_mixture.py
index cc9db86..2421d25 100644
--- a/mixtera/core/query/mixture/dynamic_mixture.py
+++ b/mixtera/core/query/mixture/dynamic_mixture.py
@@ -41,6 +41,10 @@ class DynamicMixture(Mixture):
         self._key_id_map: dict[MixtureKey, int] | None = None
         self._id_key_map: dict[int, MixtureKey] | None = None
 
+    def _process_chunk_size(self) -> None:
+        if hasattr(self, "_current_mixture"):
+            self._current_mixture.chunk_size = self.chunk_size
+
     def __str__(self) -> str:
         """String representation of this mixture object."""
         return str(
diff --git a/mixtera/core/query/mixture/hierarchical_static_mixture.py b/mixtera/core/query/mixture/hierarchical_static_mixture.py
index 0cb51df..879dcc8 100644
--- a/mixtera/core/query/mixture/hierarchical_static_mixture.py
+++ b/mixtera/core/query/mixture/hierarchical_static_mixture.py
@@ -36,8 +36,13 @@ class HierarchicalStaticMixture(Mixture):
             Component(values=["medicine"], weight=0.5)])
         """
         super().__init__(chunk_size, strict=strict)
+        self._mixture_node = mixture
         self._mixture = self.parse_mixture_node(chunk_size, mixture)
 
+    def _process_chunk_size(self) -> None:
+        if hasattr(self, "_mixture_node"):
+            self._mixture = self.parse_mixture_node(self.chunk_size, self._mixture_node)
+
     def __str__(self) -> str:
         """String representation of this mixture object."""
         return f'{{"mixture": {self._mixture}, "chunk_size": {self.chunk_size}, "strict": {self.strict}}}'
diff --git a/mixtera/core/query/mixture/mixture.py b/mixtera/core/query/mixture/mixture.py
index 84caef4..75c0ed3 100644
--- a/mixtera/core/query/mixture/mixture.py
+++ b/mixtera/core/query/mixture/mixture.py
@@ -29,6 +29,22 @@ class Mixture(ABC):
         """String representation of this mixture object."""
         return f'{{"mixture": "base_mixture", "chunk_size": {self.chunk_size}, "strict": {self.strict}}}'
 
+    @property
+    def chunk_size(self) -> int:
+        """The size of a chunk in number of instances."""
+        return self._chunk_size
+
+    @chunk_size.setter
+    def chunk_size(self, chunk_size: int) -> None:
+        self._chunk_size = chunk_size
+        self._process_chunk_size()
+
+    def _process_chunk_size(self) -> None:
+        """
+        Function that is called whenever the chunk size has been set (e.g., since another mixture containing
+        this mixture adjusts it), such that everything that has been derived from it can be updated.
+        """
+
     @abstractmethod
     def mixture_in_rows(self) -> dict[MixtureKey, int]:
         """
diff --git a/mixtera/core/query/mixture/mixture_schedule.py b/mixtera/core/query/mixture/mixture_schedule.py
index b8f3a0f..8242c07 100644
--- a/mixtera/core/query/mixture/mixture_schedule.py
+++ b/mixtera/core/query/mixture/mixture_schedule.py
@@ -43,6 +43,10 @@ class MixtureSchedule(Mixture):
         self.schedule = sorted(schedule, key=lambda entry: entry.start_step)
         self.current_step = 0
 
+    def _process_chunk_size(self) -> None:
+        for entry in getattr(self, "schedule", []):
+            entry.mixture.chunk_size = self.chunk_size
+
     def mixture_in_rows(self) -> dict[MixtureKey, int]:
         """
         Returns the mixture dictionary for the current training step.
diff --git a/mixtera/core/query/mixture/static_mixture.py b/mixtera/core/query/mixture/static_mixture.py
index 0eadf6d..a649c88 100644
--- a/mixtera/core/query/mixture/static_mixture.py
+++ b/mixtera/core/query/mixture/static_mixture.py
@@ -33,9 +33,13 @@ class StaticMixture(Mixture):
             raise ValueError(f"Your mixture sums up to {total_weight} != 1.0")
 
         # Renormalize to reduce deviance from 1.0 further
-        mixture = {key: val / total_weight for key, val in mixture.items()}
+        self._weights = {key: val / total_weight for key, val in mixture.items()}
 
-        self._mixture = StaticMixture.parse_user_mixture(chunk_size, mixture)
+        self._mixture = StaticMixture.parse_user_mixture(chunk_size, self._weights)
+
+    def _process_chunk_size(self) -> None:
+        if hasattr(self, "_weights"):
+            self._mixture = StaticMixture.parse_user_mixture(self.chunk_size, self._weights)
 
     @staticmethod
     def parse_user_mixture(chunk_size: int, user_mixture: dict[MixtureKey, float]) -> dict[MixtureKey, int]:
-- 
2.43.0


From a2ac25e510cd14c7371d34a5c5fbb89b9a9fde3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:00 +0000
Subject: [PATCH 23/58] fix: inform all entries of a mixture schedule about the
 data

---
 mixtera/core/query/mixture/mixture_schedule.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/query/mixture/mixture_schedule.py b/mixtera/core/query/mixture/mixture_schedule.py
index 8242c07..655d6ea 100644
--- a/mixtera/core/query/mixture/mixture_schedule.py
+++ b/mixtera/core/query/mixture/mixture_schedule.py
@@ -58,12 +58,13 @@ class MixtureSchedule(Mixture):
 
     def process_index(self, chunker_index: "ChunkerIndex") -> None:
         """
-        Inform the current mixture about the overall chunker index.
+        Inform all mixtures of the schedule about the overall chunker index.
 
         Args:
             chunker_index: The chunker index.
         """
-        self.current_mixture.process_index(chunker_index)
+        for entry in self.schedule:
+            entry.mixture.process_index(chunker_index)
 
     @property
     def current_mixture(self) -> Mixture:
-- 
2.43.0


From 8b41c66879ef200060434c0863a6e1575564b2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:09 +0000
Subject: [PATCH 24/58] fix: respect whether the current entry of a mixture
 schedule is strict

---
 mixtera/core/query/mixture/mixture_schedule.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mixtera/core/query/mixture/mixture_schedule.py b/mixtera/core/query/mixture/mixture_schedule.py
index 655d6ea..bb62b9a 100644
--- a/mixtera/core/query/mixture/mixture_schedule.py
+++ b/mixtera/core/query/mixture/mixture_schedule.py
@@ -47,6 +47,15 @@ class MixtureSchedule(Mixture):
         for entry in getattr(self, "schedule", []):
             entry.mixture.chunk_size = self.chunk_size
 
+    @property
+    def strict(self) -> bool:
+        """Whether the mixture for the current training step is strict."""
+        return self.current_mixture.strict
+
+    @strict.setter
+    def strict(self, strict: bool) -> None:
+        del strict  # Determined by the entries of the schedule
+
     def mixture_in_rows(self) -> dict[MixtureKey, int]:
         """
         Returns the mixture dictionary for the current training step.
-- 
2.43.0


From 3022beeebc237066047730f7a7928afef3030ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:48 +0000
Subject: [PATCH 25/58] fix: inform every new mixture about the key ids

---
 mixtera/core/query/query_result.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 75edad4..7e5688f 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -109,8 +109,9 @@ class QueryResult:
                 current_id += 1
                 updated = True
 
+        # Always inform the mixture, since it might be a new one that has not seen the (unchanged) map yet
+        self._mixture.process_id_map(self._key_id_map)
         if updated:
-            self._mixture.process_id_map(self._key_id_map)
             logger.debug(f"Updated key-id-map:\n{self._key_id_map}\n")
 
     def _persist_mixture_log(self) -> None:
-- 
2.43.0


From aa166f949223bbc3247f0f8c41628f06b9695ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:36 +0000
Subject: [PATCH 26/58] fix: restore mixture, key ids and unsuccessful attempts
 when continuing from a checkpoint

---
 mixtera/core/query/chunk_distributor.py | 23 +++++++-
 mixtera/core/query/query_result.py      | 70 +++++++++++++------------
 2 files changed, 59 insertions(+), 34 deletions(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index b0be975..2c67f33 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -10,6 +10,7 @@ from typing import Any, Generator
 import dill
 from loguru import logger
 
+from mixtera.core.query.mixture import Mixture, MixtureKey
 from mixtera.core.query.query_result import QueryResult
 from mixtera.core.query.result_chunk import ResultChunk
 
@@ -408,6 +409,11 @@ class ChunkDistributor:
 
         returns_gen = self._query_result._num_returns_gen
 
+        # The current mixture might not have been used for a chunk yet, i.e., it might be missing in the log,
+        # and the (potentially cached) QueryResult directory might have been created with another mixture.
+        current_mixture = deepcopy(self._query_result._mixture)
+        key_id_map = deepcopy(self._query_result._key_id_map)
+
         logger.debug("Spinning up the persisting process.")
 
         self._checkpoint_info[checkpoint_id]["process"] = None
@@ -423,6 +429,8 @@ class ChunkDistributor:
                 returns_gen,
                 worker_sample_ids,
                 directory_to_copy,
+                current_mixture,
+                key_id_map,
             ),
         )
         self._checkpoint_info[checkpoint_id]["process"] = p
@@ -437,6 +445,8 @@ class ChunkDistributor:
         num_returns_gen: int,
         worker_sample_ids: dict[tuple[int, int], int],
         directory_to_copy: Path | None,
+        current_mixture: Mixture,
+        key_id_map: dict[MixtureKey, int],
     ) -> None:
         """
         Persist the checkpoint to disk in a separate process.
@@ -450,6 +460,8 @@ class ChunkDistributor:
             state_to_save (dict[str, Any]): The state dictionary to save.
             query_result_copy (QueryResult): The QueryResult to save.
             worker_sample_ids (dict[tuple[int, int], int]): Mapping of worker sample indices per worker.
+            current_mixture (Mixture): The mixture to use for the chunks following the already generated ones.
+            key_id_map (dict[MixtureKey, int]): The ids of the mixture keys that have been used so far.
 
         Raises:
             Exception: If an error occurs during checkpointing.
@@ -503,7 +515,14 @@ class ChunkDistributor:
             logger.info(f"Checkpointing the mixture log and num returns with num returns = {num_returns_gen}")
             with open(checkpoint_path / "query_result_state.pkl", "wb") as f:
                 dill.dump(
-                    {"num_returns_gen": num_returns_gen, "mixture_log": mixture_log}, f, protocol=dill.HIGHEST_PROTOCOL
+                    {
+                        "num_returns_gen": num_returns_gen,
+                        "mixture_log": mixture_log,
+                        "mixture": current_mixture,
+                        "key_id_map": key_id_map,
+                    },
+                    f,
+                    protocol=dill.HIGHEST_PROTOCOL,
                 )
 
             logger.debug("Wrote checkpoint.")
@@ -600,6 +619,8 @@ class ChunkDistributor:
         logger.debug("Loading QueryResult.")
         query_result = QueryResult.from_cache(query_dir, replay=False)
         query_result._mixture_log = query_result_state["mixture_log"]
+        query_result._mixture = query_result_state["mixture"]
+        query_result._key_id_map = query_result_state["key_id_map"]
         query_result._query_log_dir = query_log_dir
         if query_log_dir is not None:
             query_log_dir.mkdir(exist_ok=True)
diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 7e5688f..550322b 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -525,7 +525,7 @@ class QueryResult:
                     mixture_id += 1
                     previous_mixture = None
                     if not self._is_replay:
-                        self._mixture_log.append((current_chunk_index, base_mixture))
+                        self._mixture_log.append((current_chunk_index, deepcopy(base_mixture)))
                     self._persist_mixture_log()
 
                 chunk = None
@@ -717,55 +717,59 @@ class QueryResult:
         logger.debug("Write mixture logs.")
 
     def replay(self, num_chunks_replay: int) -> None:
-        if num_chunks_replay < 1:
-            return
-
+        """
+        Brings a freshly loaded QueryResult into the state after having handed out num_chunks_replay chunks,
+        based on the mixture log. The current mixture is the mixture that will be used for the following chunks.
+        """
         logger.debug(f"Starting to replay {num_chunks_replay} chunks.")
-        mixture_log = self._mixture_log
+        current_mixture = self._mixture
         self._is_replay = True
 
-        mixture_log_index = 0
-        num_mixture_changes = len(mixture_log)
-
-        # Since there's always an entry at chunk index 0, set the initial mixture
-        initial_mixture = deepcopy(mixture_log[0][1])
-        assert initial_mixture is not None
-
-        self.update_mixture(initial_mixture)
-
-        mixture_log_index += 1
-
-        # Initialize next mixture change, if any
-        if mixture_log_index < num_mixture_changes:
-            next_mixture_change_chunk_index = mixture_log[mixture_log_index][0]
-            next_mixture = deepcopy(mixture_log[mixture_log_index][1])
-        else:
-            next_mixture_change_chunk_index = None
-            next_mixture = None
+        # Note that there might be several mixtures for the same chunk, if no chunk could be generated with some of them
+        mixtures: dict[int, list[Mixture]] = defaultdict(list)
+        for chunk_index, mixture in self._mixture_log:
+            mixtures[chunk_index].append(mixture)
 
         # Replay the chunks
         for i in range(num_chunks_replay):
             # Update mixture if the current chunk index matches a mixture change point
-            if next_mixture_change_chunk_index is not None and i == next_mixture_change_chunk_index:
-                assert next_mixture is not None
-                self.update_mixture(next_mixture)
-                mixture_log_index += 1
-                if mixture_log_index < num_mixture_changes:
-                    next_mixture_change_chunk_index = mixture_log[mixture_log_index][0]
-                    next_mixture = deepcopy(mixture_log[mixture_log_index][1])
-                else:
-                    next_mixture_change_chunk_index = None
+            for mixture in mixtures[i][:-1]:
+                self.update_mixture(deepcopy(mixture))
+                self._replay_unsuccessful_attempt()
+
+            if mixtures[i]:
+                self.update_mixture(deepcopy(mixtures[i][-1]))
 
             try:
                 _ = next(self)
             except StopIteration as e:
                 raise RuntimeError(f"Generator exhausted during replay at chunk index {i} - should not happen!") from e
 
+        # Mixtures for which we were not able to generate a chunk (so far)
+        for mixture in mixtures[num_chunks_replay]:
+            self.update_mixture(deepcopy(mixture))
+            self._replay_unsuccessful_attempt()
+
+        self._mixture = current_mixture
+        if self._key_id_map:
+            self._mixture.process_id_map(self._key_id_map)
+
         logger.debug("Finished chunk replay.")
         assert self._num_returns_gen == num_chunks_replay
         assert self._index.get_obj().value == num_chunks_replay
         self._is_replay = False
 
+    def _replay_unsuccessful_attempt(self) -> None:
+        chunk_index = self._index.get_obj().value
+        try:
+            chunk = next(self)
+        except StopIteration:
+            chunk = None
+
+        if chunk is not None:
+            raise RuntimeError(f"Generated chunk {chunk_index} during replay unexpectedly - should not happen!")
+        self._index.get_obj().value = chunk_index
+
     @classmethod
     def from_cache(cls, path: Path, replay: bool = True) -> "QueryResult":
         """
@@ -818,7 +822,7 @@ class QueryResult:
         if query_result._query_log_dir is not None:
             query_result._query_log_dir.mkdir(exist_ok=True)
 
-        if num_chunks_replay > 0 and replay:
+        if replay:
             query_result.replay(num_chunks_replay)
 
         return query_result
-- 
2.43.0


From 977a2b503a8940107ce2964f56b74c4ab9de14d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:36 +0000
Subject: [PATCH 27/58] fix: allow further local checkpoints after restoring a
 checkpoint

---
 mixtera/core/query/chunk_distributor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index 2c67f33..22771f0 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -368,6 +368,7 @@ class ChunkDistributor:
             "next_chunk": deepcopy(self._next_chunk),
             "_dp_groups": self._dp_groups,
             "_num_workers": self._num_workers,
+            "_og_num_workers": self._og_num_workers,
             "_nodes_per_group": self._nodes_per_group,
             "_checkpoint_id_counter": self._checkpoint_id_counter.value,
         }
@@ -631,7 +632,7 @@ class ChunkDistributor:
         chunk_distributor = cls(
             dp_groups=state["_dp_groups"],
             nodes_per_group=state["_nodes_per_group"],
-            num_workers=state["_num_workers"],
+            num_workers=state["_og_num_workers"],
             query_result=query_result,
             job_id=job_id,
         )
-- 
2.43.0


From 69db4b45f74c94af0086274b1ddeaea01e5034b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:36 +0000
Subject: [PATCH 28/58] fix: create the directory for checkpointing a query
 that is not cached

---
 mixtera/core/query/chunk_distributor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index 22771f0..5e79bcc 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -384,6 +384,7 @@ class ChunkDistributor:
                 directory_to_copy = self._cached_query
             else:
                 logger.debug("Query has not been cached - pickling now. This may take some time.")
+                (chkpnt_dir / "queryresult").mkdir(parents=True)
                 self._query_result.to_cache(chkpnt_dir / "queryresult")
             logger.debug("Handled pickling of QueryResult.")
 
-- 
2.43.0


From b10f8910c3305dffbaad3c2f17a3400e2f807e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 29/58] fix: allow checkpoints after a refused one

---
 mixtera/core/query/chunk_distributor.py | 29 +++++++++++++++----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index 5e79bcc..2b97110 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -278,17 +278,24 @@ class ChunkDistributor:
 
             if len(self._nodes_reported) == self._dp_groups * self._nodes_per_group:
                 # All nodes have reported; proceed to validation and checkpointing
-                worker_sample_ids = self._validate_checkpoint_state()
-
-                # Start checkpointing process
-                # By having this in the lock,
-                # we ensure we finish the checkpoint in-memory copy first before handling the next request.
-                self._start_checkpointing(checkpoint_id, worker_sample_ids, chkpnt_dir)
-
-                # Reset for next checkpoint, afterwards release the lock, allowing potentially for the next request.
-                self._worker_statuses = {}
-                self._nodes_reported = set()
-                self._current_checkpoint_id = None
+                try:
+                    worker_sample_ids = self._validate_checkpoint_state()
+
+                    # Start checkpointing process
+                    # By having this in the lock,
+                    # we ensure we finish the checkpoint in-memory copy first before handling the next request.
+                    self._start_checkpointing(checkpoint_id, worker_sample_ids, chkpnt_dir)
+                except Exception:
+                    # The checkpoint has been refused, i.e., its id will be used by the next one
+                    del self._checkpoint_info[checkpoint_id]
+                    self._checkpoint_id_counter.value -= 1
+                    raise
+                finally:
+                    # Reset for next checkpoint (also if this one has been refused),
+                    # afterwards release the lock, allowing potentially for the next request.
+                    self._worker_statuses = {}
+                    self._nodes_reported = set()
+                    self._current_checkpoint_id = None
 
         return checkpoint_id
 
-- 
2.43.0


From 83ae05d72b813f0a17316cd7539ebd334d66d588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 30/58] fix: checkpoint jobs whose cached query has been
 removed meanwhile

---
 mixtera/core/query/chunk_distributor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index 2b97110..e5adab6 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -386,7 +386,7 @@ class ChunkDistributor:
         directory_to_copy = None
         if self._checkpoint_id_counter.value == 1:
             logger.debug("This is the first checkpoint.")
-            if self._cached_query is not None:
+            if self._cached_query is not None and self._cached_query.exists():
                 logger.debug("Copying cached QueryResult to setup initial checkpoint in subprocess.")
                 directory_to_copy = self._cached_query
             else:
-- 
2.43.0


From 15d90d0fc547abbc733283ae97d1a6a879d491ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:48 +0000
Subject: [PATCH 31/58] fix: log mixtures that only differ in being strict

---
 mixtera/core/query/query_result.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 550322b..2765f93 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -311,6 +311,7 @@ class QueryResult:
         num_consumed: dict[MixtureKey, int] = defaultdict(int)
 
         previous_mixture = None
+        previous_strict = None
         base_mixture, target_chunk_index = yield
         # We allow to re-query the latest chunk after not being able to generate one,
         # e.g., due to dynamic mixture changes.
@@ -328,10 +329,11 @@ class QueryResult:
 
             chunk_success = False
             if mixture:
-                if previous_mixture != mixture:
+                if previous_mixture != mixture or previous_strict != is_strict:
                     logger.debug(f"Obtained new mixture: {mixture}")
                     mixture_id += 1
                     previous_mixture = deepcopy(mixture)
+                    previous_strict = is_strict
 
                     if len(self._mixture_log) > 0:
                         last_mixture = self._mixture_log[-1][1]
-- 
2.43.0


From 1f93f5d7fb52f06bf6687423ec3436eaf681044e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:21 +0000
Subject: [PATCH 32/58] fix: keep the position of workers that have not
 requested data since the last restore

---
 mixtera/core/query/chunk_distributor.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index e5adab6..40fce68 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -492,6 +492,14 @@ class ChunkDistributor:
             logger.debug("Adjusting the state.")
             # Move next chunk 1 backwards (because on replay, we will need to hand out the current chunk again)
             # Also, integrate worker_sample_ids
+            # If the next chunk of a worker has been generated already despite all nodes being at the same chunk,
+            # it stems from a restored checkpoint and no node has requested it since then.
+            pending_workers = {
+                (dp_group, worker_id)
+                for dp_group in range(state_to_save["_dp_groups"])
+                for worker_id in range(state_to_save["_num_workers"])
+                if state_to_save["next_chunk"][dp_group][0][worker_id] in state_to_save["chunk_cache"][dp_group]
+            }
             for dp_group in range(state_to_save["_dp_groups"]):
                 for node in range(state_to_save["_nodes_per_group"]):
                     for worker_id in range(state_to_save["_num_workers"]):
@@ -500,7 +508,12 @@ class ChunkDistributor:
                         next_chunk = (
                             state_to_save["next_chunk"][dp_group][node][worker_id] - state_to_save["_num_workers"]
                         )
-                        if next_chunk >= 0:
+                        if (dp_group, worker_id) in pending_workers:
+                            logger.debug(
+                                f"For dp={dp_group}, node={node}, w={worker_id}, the chunk restored from the "
+                                + "previous checkpoint has not been requested yet, keeping its position."
+                            )
+                        elif next_chunk >= 0:
                             state_to_save["next_chunk"][dp_group][node][worker_id] = next_chunk
                             state_to_save["chunk_usage"][dp_group][next_chunk] = 0
                             chunk = state_to_save["chunk_cache"][dp_group][next_chunk]
-- 
2.43.0


From b13977db28b6817198a3400a83082f15f4a559eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:50 +0000
Subject: [PATCH 33/58] fix: log changes of the chunk size between arbitrary
 mixtures

---
 mixtera/core/query/query_result.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 2765f93..02a703e 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -312,6 +312,7 @@ class QueryResult:
 
         previous_mixture = None
         previous_strict = None
+        previous_chunk_size = None
         base_mixture, target_chunk_index = yield
         # We allow to re-query the latest chunk after not being able to generate one,
         # e.g., due to dynamic mixture changes.
@@ -522,10 +523,15 @@ class QueryResult:
                         component_iterators[component_key] = iterator
                     base_mixture, target_chunk_index = yield None
             else:
-                if previous_mixture is not None or current_chunk_index == 0:
+                if (
+                    previous_mixture is not None
+                    or current_chunk_index == 0
+                    or previous_chunk_size != base_mixture.chunk_size
+                ):
                     logger.debug("Obtained new None mixture.")
                     mixture_id += 1
                     previous_mixture = None
+                    previous_chunk_size = base_mixture.chunk_size
                     if not self._is_replay:
                         self._mixture_log.append((current_chunk_index, deepcopy(base_mixture)))
                     self._persist_mixture_log()
-- 
2.43.0


From d98c0a906111a5d11c599d475898bbb8f91e9c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:57 +0000
Subject: [PATCH 34/58] fix: keep the values of chunker keys apart whatever
 characters they contain

---
 .../core/query/chunker/include/chunker.hpp    |  2 +
 mixtera/core/query/chunker/src/chunker.cpp    | 58 +++++++++++--------
 2 files changed, 35 insertions(+), 25 deletions(-)

diff --git a/mixtera/core/query/chunker/include/chunker.hpp b/mixtera/core/query/chunker/include/chunker.hpp
index 735787e..e28eaa3 100644
--- a/mixtera/core/query/chunker/include/chunker.hpp
+++ b/mixtera/core/query/chunker/include/chunker.hpp
@@ -69,6 +69,8 @@ py::object build_py_chunker_index(ChunkerIndexCpp* merged_chunker_index);
 
 void merge_sorted_intervals_inplace(std::vector<Interval>& target_intervals, std::vector<Interval>& source_intervals);
 
+void append_value_to_key(std::string& key, const std::string& value);
+
 void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::vector<std::string>& property_columns,
                    ChunkerIndexCpp& local_chunker_index);
 
diff --git a/mixtera/core/query/chunker/src/chunker.cpp b/mixtera/core/query/chunker/src/chunker.cpp
index 9af4868..dff0a25 100644
--- a/mixtera/core/query/chunker/src/chunker.cpp
+++ b/mixtera/core/query/chunker/src/chunker.cpp
@@ -90,6 +90,18 @@ void merge_sorted_intervals_inplace(std::vector<Interval>& target_intervals, std
   std::inplace_merge(target_intervals.begin(), target_intervals.begin() + m, target_intervals.end());
 }
 
+// Appends a property value to a key string. Each value is terminated by ',', such that an empty value differs from no
+// value, and characters that have a meaning in the key string are escaped.
+void append_value_to_key(std::string& key, const std::string& value) {
+  for (const char c : value) {
+    if (c == '\\' || c == ',' || c == ';') {
+      key += '\\';
+    }
+    key += c;
+  }
+  key += ',';
+}
+
 // Helper function to process a range of rows
 void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::vector<std::string>& property_columns,
                    ChunkerIndexCpp& local_chunker_index) {
@@ -148,7 +160,7 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
               auto str_array = arrow::internal::checked_pointer_cast<arrow::LargeStringArray>(array);
               value = str_array->GetString(i);
             }
-            key += value;
+            append_value_to_key(key, value);
 
             // Handle LIST and LARGE_LIST types
           } else if (type_id == arrow::Type::LIST || type_id == arrow::Type::LARGE_LIST) {
@@ -184,7 +196,6 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
 
             // Build values string
             std::string values_str;
-            bool first_value = true;
 
             const auto value_type_id = value_array->type_id();
 
@@ -202,11 +213,7 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
                   auto str_values = arrow::internal::checked_pointer_cast<arrow::LargeStringArray>(value_array);
                   val = str_values->GetString(k);
                 }
-                if (!first_value) {
-                  values_str += ",";
-                }
-                first_value = false;
-                values_str += val;
+                append_value_to_key(values_str, val);
               }
 
               // Handle DICTIONARY elements within the list
@@ -248,11 +255,7 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
                                    col_name, dict->type()->ToString()));
                 }
 
-                if (!first_value) {
-                  values_str += ",";
-                }
-                first_value = false;
-                values_str += val;
+                append_value_to_key(values_str, val);
               }
 
             } else {
@@ -298,7 +301,7 @@ void process_batch(const std::shared_ptr<arrow::RecordBatch>& batch, const std::
                                dict->type()->ToString()));
             }
 
-            key += value;
+            append_value_to_key(key, value);
 
           } else {
             FAIL(fmt::format("Unsupported array type in column '{}' at row {}. Type: {}", col_name, i,
@@ -531,25 +534,30 @@ ChunkerIndexCpp merge_chunker_indices(std::vector<ChunkerIndexCpp>* thread_chunk
 
 py::dict string_key_to_property_dict(const MixtureKeyCpp& key) {
   // Parse the C++ key string into a properties dictionary for Python
-  // Expected format: "prop1:val1,val2;prop2:val3"
+  // Expected format: "prop1:val1,val2,;prop2:val3,", with ',', ';' and '\' in values being escaped by '\'
   py::dict py_properties;
-  std::stringstream ss_props(key);
-  std::string prop_pair;
-  while (std::getline(ss_props, prop_pair, ';')) {
-    size_t colon_pos = prop_pair.find(':');
+  size_t pos = 0;
+  while (pos < key.size()) {
+    const size_t colon_pos = key.find(':', pos);
     if (colon_pos == std::string::npos) {
-      continue;
+      break;
     }
-    std::string prop_name = prop_pair.substr(0, colon_pos);
-    std::string values_str = prop_pair.substr(colon_pos + 1);
+    const std::string prop_name = key.substr(pos, colon_pos - pos);
 
-    // Split values by ','
     std::vector<std::string> values;
-    std::stringstream ss_values(values_str);
     std::string value;
-    while (std::getline(ss_values, value, ',')) {
-      values.push_back(value);
+    for (pos = colon_pos + 1; pos < key.size() && key[pos] != ';'; ++pos) {
+      if (key[pos] == ',') {
+        values.push_back(std::move(value));
+        value.clear();
+      } else {
+        if (key[pos] == '\\' && pos + 1 < key.size()) {
+          ++pos;
+        }
+        value += key[pos];
+      }
     }
+    ++pos;  // Skip the ';' between the properties
     py_properties[py::cast(prop_name)] = py::cast(std::move(values));
   }
   return py_properties;
-- 
2.43.0


From 5a9abdebea7b89c8ff8324a8d97ea4268b3731db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:22 +0000
Subject: [PATCH 35/58] fix: quote the options of enumerations

---
 mixtera/core/datacollection/mixtera_data_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mixtera/core/datacollection/mixtera_data_collection.py b/mixtera/core/datacollection/mixtera_data_collection.py
index 7f7dd4a..690baa6 100644
--- a/mixtera/core/datacollection/mixtera_data_collection.py
+++ b/mixtera/core/datacollection/mixtera_data_collection.py
@@ -301,7 +301,7 @@ class MixteraDataCollection:
                     if result is None or result[0] == 0:
                         # It is important to sort here,
                         # otherwise across runs (e.g., in unit tests), we get inconsistent ordering.
-                        enum_values = "', '".join(sorted(prop.enum_options))
+                        enum_values = "', '".join(opt.replace("'", "''") for opt in sorted(prop.enum_options))
                         create_enum_query = f"CREATE TYPE {enum_type_name} AS ENUM ('{enum_values}');"
                         cur.execute(create_enum_query)
                     column_type = f"{enum_type_name}[]" if prop.multiple else enum_type_name
-- 
2.43.0


From 4152331d3bb973166433bf9edfea907c726c0607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:02 +0000
Subject: [PATCH 36/58] fix: group samples whose values are listed in different
 order

---
 mixtera/core/query/query.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/query.py b/mixtera/core/query/query.py
index 0df09bd..465baef 100644
--- a/mixtera/core/query/query.py
+++ b/mixtera/core/query/query.py
@@ -123,13 +123,17 @@ class Query:
             [col for col in columns if col not in ["sample_id", "dataset_id", "file_id"]]
         )
 
+        # The order of the values of a property does not matter, i.e., samples with the same values need to be grouped
+        sorted_lists = ", ".join(f"list_sort({col}) AS {col}" for col in group_cols if schema[col]["multiple"])
+        replace_clause = f"REPLACE ({sorted_lists})" if sorted_lists else ""
+
         # Create the partition by clause for the window functions
         partition_clause = ", ".join(group_cols)
 
         # Wrap the base query in a CTE and add the chunking logic
         full_query = f"""
         WITH base_data AS (
-            {base_query}
+            SELECT * {replace_clause} FROM ({base_query})
         ),
         grouped_samples AS (
             SELECT
-- 
2.43.0


From 4d9041c84d6101773863934b154e0de08d1c30b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:50 +0000
Subject: [PATCH 37/58] fix: leave no dataset behind when its registration
 fails

---
 .../core/datacollection/mixtera_data_collection.py  | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mixtera/core/datacollection/mixtera_data_collection.py b/mixtera/core/datacollection/mixtera_data_collection.py
index 690baa6..ea36610 100644
--- a/mixtera/core/datacollection/mixtera_data_collection.py
+++ b/mixtera/core/datacollection/mixtera_data_collection.py
@@ -152,6 +152,19 @@ class MixteraDataCollection:
         if (dataset_id := self._insert_dataset_into_table(identifier, loc, dtype, parsing_func)) == -1:
             return False
 
+        registered = False
+        try:
+            registered = self._register_files(identifier, dataset_id, loc, dtype, metadata_parser_type)
+        finally:
+            if not registered:
+                # Do not leave behind a dataset whose files could not be (completely) registered
+                self.remove_dataset(identifier)
+
+        return registered
+
+    def _register_files(
+        self, identifier: str, dataset_id: int, loc: str, dtype: Type[Dataset], metadata_parser_type: str
+    ) -> bool:
         files = list(dtype.iterate_files(loc))
         if not files:
             logger.warning(f"No files found in {loc} for dataset {identifier}")
-- 
2.43.0


From 8ce7fb4f2da9f48b89639b0f6413a982fd10a7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:05 +0000
Subject: [PATCH 38/58] fix: refuse datasets declaring a known property with
 another number of values

---
 .../core/datacollection/mixtera_data_collection.py    | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mixtera/core/datacollection/mixtera_data_collection.py b/mixtera/core/datacollection/mixtera_data_collection.py
index ea36610..07cf359 100644
--- a/mixtera/core/datacollection/mixtera_data_collection.py
+++ b/mixtera/core/datacollection/mixtera_data_collection.py
@@ -295,8 +295,15 @@ class MixteraDataCollection:
         cur = self._connection.cursor()
 
         # Fetch all existing column names once
-        cur.execute("SELECT name FROM pragma_table_info('samples');")
-        existing_columns = set(row[0] for row in cur.fetchall())
+        cur.execute("SELECT name, type FROM pragma_table_info('samples');")
+        existing_columns = {row[0]: row[1] for row in cur.fetchall()}
+        for prop in properties:
+            # DuckDB would silently cast, e.g., lists to their string representation
+            if prop.name in existing_columns and existing_columns[prop.name].endswith("[]") != prop.multiple:
+                raise RuntimeError(
+                    f"Property {prop.name} is already registered with a different number of values per sample."
+                )
+
         columns_to_add = [prop for prop in properties if prop.name not in existing_columns]
 
         if columns_to_add:
-- 
2.43.0


From 29801d69d604e68663d3a65c8d6d97ebd78d5e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:18 +0000
Subject: [PATCH 39/58] fix: do not reuse the directory of an outdated cached
 query

---
 mixtera/core/query/query_cache.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mixtera/core/query/query_cache.py b/mixtera/core/query/query_cache.py
index c909cc2..92a8a36 100644
--- a/mixtera/core/query/query_cache.py
+++ b/mixtera/core/query/query_cache.py
@@ -31,17 +31,19 @@ class QueryCache:
         hash_dir = self.directory / query_hash
         hash_dir.mkdir(exist_ok=True)
 
+        # Running jobs refer to their directory. When an outdated directory has been removed, its name must not be reused
+        # for the results on another version of the database.
+        db_ver = self._mdc.get_db_version()
         existing_dirs = sorted([int(d.name) for d in hash_dir.iterdir() if d.is_dir() and d.name.isdigit()])
         if existing_dirs:
-            next_number = existing_dirs[-1] + 1
+            next_number = max(existing_dirs[-1] + 1, db_ver)
         else:
-            next_number = 0
+            next_number = db_ver
 
         query_dir = hash_dir / str(next_number)
         query_dir.mkdir()
 
         # Prepare the cache metadata
-        db_ver = self._mdc.get_db_version()
         cache_obj = {"db_version": db_ver, "query_str": str(query)}
 
         # Save the metadata
-- 
2.43.0


From 82e34bda3aaa9ed6c865180feac6c9bbff20aa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:07 +0000
Subject: [PATCH 40/58] fix: property calculation reads compressed JSONL files

---
 .../core/processing/property_calculation/local_executor.py    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/processing/property_calculation/local_executor.py b/mixtera/core/processing/property_calculation/local_executor.py
index 70016c4..eb040d0 100644
--- a/mixtera/core/processing/property_calculation/local_executor.py
+++ b/mixtera/core/processing/property_calculation/local_executor.py
@@ -7,6 +7,7 @@ from tqdm import tqdm
 
 from mixtera.core.datacollection.datasets import Dataset, JSONLDataset
 from mixtera.core.processing.property_calculation import PropertyCalculationExecutor
+from xopen import xopen
 
 
 class LocalPropertyCalculationExecutor(PropertyCalculationExecutor):
@@ -100,7 +101,8 @@ class LocalPropertyCalculationExecutor(PropertyCalculationExecutor):
         if not file_path.exists():
             raise RuntimeError(f"File {file_path} does not exist.")
 
-        with open(file_path, encoding="utf-8") as fp:
+        opener = open if file_path.suffix == ".jsonl" else xopen  # compressed files have another suffix
+        with opener(file_path, "r", encoding="utf-8") as fp:
             for line_id, line in enumerate(fp):
                 yield line_id, line.rstrip()
 
-- 
2.43.0


From 0295f8cc54852298988a257bfaafa3af9385dccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:06 +0000
Subject: [PATCH 41/58] fix: failures of the server are not taken for the end
 of the stream

---
 mixtera/network/connection/server_connection.py | 16 +++++++++++-----
 mixtera/network/server/server.py                |  3 ++-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/mixtera/network/connection/server_connection.py b/mixtera/network/connection/server_connection.py
index 27d1435..4de2a81 100644
--- a/mixtera/network/connection/server_connection.py
+++ b/mixtera/network/connection/server_connection.py
@@ -223,12 +223,16 @@ class ServerConnection:
 
         Returns:
             An ResultChunk object representing the next result chunk,
-            or None if there are no more results or the connection fails.
+            or None if there are no more results.
+
+        Raises:
+            RuntimeError: If the connection fails or the server does not answer, i.e., the stream has not ended.
         """
+        serialized_chunk = None
         async with self._connect_to_server() as (reader, writer):
 
             if reader is None or writer is None:
-                return None
+                raise RuntimeError("Could not connect to the server to get the next result chunk.")
 
             # Announce we want to get a result chunk
             await write_int(int(ServerTask.GET_NEXT_RESULT_CHUNK), NUM_BYTES_FOR_IDENTIFIERS, writer)
@@ -243,10 +247,12 @@ class ServerConnection:
 
             # Get bytes
             serialized_chunk = await read_bytes_obj(NUM_BYTES_FOR_SIZES, reader, timeout=10 * 60)
-            if serialized_chunk is not None:
-                serialized_chunk = dill.loads(serialized_chunk)
 
-            return serialized_chunk
+        if serialized_chunk is None:
+            raise RuntimeError(f"The server failed to return the next result chunk of job {job_id}.")
+
+        # The server also sends the end of the stream as a serialized object (None)
+        return dill.loads(serialized_chunk)
 
     def _stream_result_chunks(
         self, job_id: str, dp_group_id: int, node_id: int, worker_id: int
diff --git a/mixtera/network/server/server.py b/mixtera/network/server/server.py
index 5aa9572..33c6cbb 100644
--- a/mixtera/network/server/server.py
+++ b/mixtera/network/server/server.py
@@ -7,6 +7,7 @@ import typing
 import uuid
 from pathlib import Path
 
+import dill
 from loguru import logger
 
 from mixtera.core.client.local import LocalStub
@@ -136,7 +137,7 @@ class MixteraServer:
             if job_id not in self._chunk_distributor_map:
                 self._chunk_distributor_map[job_id] = self._local_stub._get_query_chunk_distributor(job_id)
 
-        next_chunk = None
+        next_chunk = dill.dumps(None)  # End of the stream, which clients need to tell apart from a failure
         try:
             next_chunk = self._chunk_distributor_map[job_id].next_chunk_for(dp_group_id, node_id, worker_id, False)
         except StopIteration:
-- 
2.43.0


From baf3194c7701e69b4d609eab4e7157d5a0d9c4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:33 +0000
Subject: [PATCH 42/58] fix: the server refuses to execute a query for an
 existing job

---
 mixtera/network/server/server.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mixtera/network/server/server.py b/mixtera/network/server/server.py
index 33c6cbb..64c19ec 100644
--- a/mixtera/network/server/server.py
+++ b/mixtera/network/server/server.py
@@ -57,7 +57,7 @@ class MixteraServer:
         self._chunk_distributor_map_lock = asyncio.Lock()
         self._register_query_lock = asyncio.Lock()
         self._dataset_registration: dict[str, bool] = {}
-        self._query_registration: dict[str, bool] = {}
+        self._query_registration: dict[str, bool | None] = {}  # None while in progress
 
     async def _register_query(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
         """
@@ -86,7 +86,13 @@ class MixteraServer:
         )
 
         query: Query = await read_pickeled_object(NUM_BYTES_FOR_SIZES, reader)
+        if self._query_registration.get(query.job_id, False) is not False:
+            logger.warning(f"We already have a query for job {query.job_id}!")
+            await write_utf8_string("", NUM_BYTES_FOR_IDENTIFIERS, writer)
+            return
+
         logger.debug(f"Received query = {str(query)}. Launching execution task.")
+        self._query_registration[query.job_id] = None  # in progress
         asyncio.create_task(self._background_register_query(query, args))
         await write_utf8_string(query.job_id, NUM_BYTES_FOR_IDENTIFIERS, writer)
 
@@ -389,7 +395,7 @@ class MixteraServer:
         job_id = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
         chkpnt_id = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
 
-        self._query_registration.pop(job_id, None)  # Otherwise, we immediately return True.
+        self._query_registration[job_id] = None  # Otherwise, we immediately return True.
 
         asyncio.create_task(self._background_restore_checkpoint(job_id, chkpnt_id))
         await write_utf8_string(job_id, NUM_BYTES_FOR_IDENTIFIERS, writer)
-- 
2.43.0


From 96bb68ff58f97dafc1c95edf29afbe40f1dec3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:40 +0000
Subject: [PATCH 43/58] fix: the server reports refused feedback

---
 mixtera/network/server/server.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mixtera/network/server/server.py b/mixtera/network/server/server.py
index 64c19ec..a00babd 100644
--- a/mixtera/network/server/server.py
+++ b/mixtera/network/server/server.py
@@ -437,9 +437,7 @@ class MixteraServer:
         feedback.losses = await read_numpy_array(NUM_BYTES_FOR_IDENTIFIERS, NUM_BYTES_FOR_SIZES, reader)
         feedback.counts = await read_numpy_array(NUM_BYTES_FOR_IDENTIFIERS, NUM_BYTES_FOR_SIZES, reader)
 
-        self._local_stub.process_feedback(job_id, feedback)
-
-        success = True
+        success = self._local_stub.process_feedback(job_id, feedback)
         await write_int(int(success), NUM_BYTES_FOR_IDENTIFIERS, writer)
 
     async def _dispatch_client(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
-- 
2.43.0


From e88869f43371ab94e7c4a46aa9320e535518e09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:53 +0000
Subject: [PATCH 44/58] fix: the server does not process incomplete requests

---
 mixtera/network/server/server.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mixtera/network/server/server.py b/mixtera/network/server/server.py
index a00babd..193264d 100644
--- a/mixtera/network/server/server.py
+++ b/mixtera/network/server/server.py
@@ -35,6 +35,19 @@ from mixtera.network.network_utils import (
 from mixtera.network.server_task import ServerTask
 
 
+class _RequestReader:
+    """Reads the fields of a request. A request that ends before all its fields were read must not be processed."""
+
+    def __init__(self, reader: asyncio.StreamReader) -> None:
+        self._reader = reader
+
+    async def read(self, num_bytes: int = -1) -> bytes:
+        data = await self._reader.read(num_bytes)
+        if not data:
+            raise ConnectionError("The connection was closed before the request was complete.")
+        return data
+
+
 class MixteraServer:
     def __init__(self, directory: Path, host: str, port: int):
         """
@@ -458,6 +471,7 @@ class MixteraServer:
                 return
 
             task = ServerTask(task_int)
+            reader = typing.cast(asyncio.StreamReader, _RequestReader(reader))
             if task == ServerTask.REGISTER_QUERY:
                 await self._register_query(reader, writer)
             elif task == ServerTask.QUERY_EXEC_STATUS:
-- 
2.43.0


From 50b3462244d6c317ebbed4e3421f02699bdca97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:10 +0000
Subject: [PATCH 45/58] fix: the server does not change the data collection
 concurrently

---
 mixtera/network/server/server.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/mixtera/network/server/server.py b/mixtera/network/server/server.py
index 193264d..5c9ee40 100644
--- a/mixtera/network/server/server.py
+++ b/mixtera/network/server/server.py
@@ -68,7 +68,8 @@ class MixteraServer:
         self._local_stub: LocalStub = LocalStub(self._directory)
         self._chunk_distributor_map: dict[str, ChunkDistributor] = {}
         self._chunk_distributor_map_lock = asyncio.Lock()
-        self._register_query_lock = asyncio.Lock()
+        # The data collection is not thread-safe; additionally, it must not change while a query is executed (and cached).
+        self._data_collection_lock = asyncio.Lock()
         self._dataset_registration: dict[str, bool] = {}
         self._query_registration: dict[str, bool | None] = {}  # None while in progress
 
@@ -110,7 +111,7 @@ class MixteraServer:
         await write_utf8_string(query.job_id, NUM_BYTES_FOR_IDENTIFIERS, writer)
 
     async def _background_register_query(self, query: Query, args: QueryExecutionArgs) -> None:
-        async with self._register_query_lock:
+        async with self._data_collection_lock:
             try:
                 success = await asyncio.to_thread(self._local_stub.execute_query, query, args)
                 self._query_registration[query.job_id] = success
@@ -215,14 +216,15 @@ class MixteraServer:
         parsing_func: typing.Callable[[str], str],
         metadata_parser_identifier: str,
     ) -> None:
-        try:
-            success = await asyncio.to_thread(
-                self._local_stub.register_dataset, identifier, loc, dtype, parsing_func, metadata_parser_identifier
-            )
-            self._dataset_registration[job_id] = success
-        except Exception:  # pylint: disable=broad-exception-caught
-            logger.error(f"Background dataset registration failed: {traceback.format_exc()}")
-            self._dataset_registration[job_id] = False
+        async with self._data_collection_lock:
+            try:
+                success = await asyncio.to_thread(
+                    self._local_stub.register_dataset, identifier, loc, dtype, parsing_func, metadata_parser_identifier
+                )
+                self._dataset_registration[job_id] = success
+            except Exception:  # pylint: disable=broad-exception-caught
+                logger.error(f"Background dataset registration failed: {traceback.format_exc()}")
+                self._dataset_registration[job_id] = False
 
     async def _check_dataset_registration(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
         job_id = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
@@ -334,7 +336,8 @@ class MixteraServer:
             writer (asyncio.StreamWriter): The stream writer to write data to the client.
         """
         identifier = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
-        success = self._local_stub.remove_dataset(identifier)
+        async with self._data_collection_lock:
+            success = self._local_stub.remove_dataset(identifier)
         await write_int(int(success), NUM_BYTES_FOR_IDENTIFIERS, writer)
 
     async def _add_property(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
@@ -414,7 +417,7 @@ class MixteraServer:
         await write_utf8_string(job_id, NUM_BYTES_FOR_IDENTIFIERS, writer)
 
     async def _background_restore_checkpoint(self, job_id: str, chkpnt_id: str) -> None:
-        async with self._register_query_lock:
+        async with self._data_collection_lock:
             try:
                 await asyncio.to_thread(self._local_stub.restore_checkpoint, job_id, chkpnt_id)
                 async with self._chunk_distributor_map_lock:
-- 
2.43.0


From ea5a353237130bf6d5cf267da1c21fbd9d8b43b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 46/58] fix: requests for unknown jobs do not block the server

---
 mixtera/network/server/server.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/mixtera/network/server/server.py b/mixtera/network/server/server.py
index 5c9ee40..84c3286 100644
--- a/mixtera/network/server/server.py
+++ b/mixtera/network/server/server.py
@@ -73,6 +73,18 @@ class MixteraServer:
         self._dataset_registration: dict[str, bool] = {}
         self._query_registration: dict[str, bool | None] = {}  # None while in progress
 
+    async def _call_for_job(
+        self, job_id: str, func: typing.Callable, *args: typing.Any, **kwargs: typing.Any
+    ) -> typing.Any:
+        """
+        Calls a function of the local stub that operates on a job.
+        As long as the job is not known, such functions wait for it, which must not block all other clients.
+        """
+        if job_id in self._local_stub._training_query_map:
+            return func(*args, **kwargs)
+
+        return await asyncio.to_thread(func, *args, **kwargs)
+
     async def _register_query(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
         """
         Registers and executes a query received from the client.
@@ -153,9 +165,10 @@ class MixteraServer:
         node_id = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
         worker_id = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
 
-        async with self._chunk_distributor_map_lock:
-            if job_id not in self._chunk_distributor_map:
-                self._chunk_distributor_map[job_id] = self._local_stub._get_query_chunk_distributor(job_id)
+        if job_id not in self._chunk_distributor_map:
+            chunk_distributor = await self._call_for_job(job_id, self._local_stub._get_query_chunk_distributor, job_id)
+            async with self._chunk_distributor_map_lock:
+                self._chunk_distributor_map.setdefault(job_id, chunk_distributor)
 
         next_chunk = dill.dumps(None)  # End of the stream, which clients need to tell apart from a failure
         try:
@@ -174,7 +187,9 @@ class MixteraServer:
             writer (asyncio.StreamWriter): The stream writer to write data to the client.
         """
         job_id = await read_utf8_string(NUM_BYTES_FOR_IDENTIFIERS, reader)
-        dataset_dict, parsing_dict, file_path_dict = self._local_stub._get_result_metadata(job_id)
+        dataset_dict, parsing_dict, file_path_dict = await self._call_for_job(
+            job_id, self._local_stub._get_result_metadata, job_id
+        )
 
         meta = {
             "dataset_type": dataset_dict,
@@ -391,7 +406,9 @@ class MixteraServer:
             status = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
             worker_status.append(status)
 
-        chkpnt_id = self._local_stub.checkpoint(job_id, dp_group_id, node_id, worker_status, server=True)
+        chkpnt_id = await self._call_for_job(
+            job_id, self._local_stub.checkpoint, job_id, dp_group_id, node_id, worker_status, server=True
+        )
 
         await write_utf8_string(chkpnt_id, NUM_BYTES_FOR_SIZES, writer)
 
@@ -403,7 +420,9 @@ class MixteraServer:
         on_disk_flag = await read_int(NUM_BYTES_FOR_IDENTIFIERS, reader)
         on_disk = bool(on_disk_flag)
 
-        is_completed = self._local_stub.checkpoint_completed(job_id, chkpnt_id, on_disk)
+        is_completed = await self._call_for_job(
+            job_id, self._local_stub.checkpoint_completed, job_id, chkpnt_id, on_disk
+        )
 
         await write_int(int(is_completed), NUM_BYTES_FOR_IDENTIFIERS, writer)
 
-- 
2.43.0


From a1f4fe1062562268d87f80d80b5f659fb5c948b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:36 +0000
Subject: [PATCH 47/58] fix: inferred mixtures do not depend on the index order

---
 mixtera/core/query/mixture/inferring_mixture.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mixtera/core/query/mixture/inferring_mixture.py b/mixtera/core/query/mixture/inferring_mixture.py
index 6d9f3c8..6dcd948 100644
--- a/mixtera/core/query/mixture/inferring_mixture.py
+++ b/mixtera/core/query/mixture/inferring_mixture.py
@@ -46,5 +46,7 @@ class InferringMixture(Mixture):
             total > 0 and len(inferred_mixture_dict.keys()) > 0
         ), f"Inconsistent state: total = {total}, inferred_mixture_dict={inferred_mixture_dict}"
 
+        # The order of the chunker index differs between processes, and breaks ties when apportioning the remaining rows.
+        inferred_mixture_dict = {key: inferred_mixture_dict[key] for key in sorted(inferred_mixture_dict)}
         self._mixture = StaticMixture.parse_user_mixture(self.chunk_size, inferred_mixture_dict)
         logger.info("Mixture inferred.")
-- 
2.43.0


From a33aae09f109bcdeffbae885add035306a6eea98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:13 +0000
Subject: [PATCH 48/58] fix: keep the mixture id at the end of a stream, such
 that the last batches can be reported

---
 mixtera/core/client/local/local_stub.py   | 2 ++
 mixtera/core/client/mixtera_client.py     | 9 ++++++---
 mixtera/core/client/server/server_stub.py | 2 ++
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/mixtera/core/client/local/local_stub.py b/mixtera/core/client/local/local_stub.py
index 442476f..1ae9e11 100644
--- a/mixtera/core/client/local/local_stub.py
+++ b/mixtera/core/client/local/local_stub.py
@@ -77,6 +77,7 @@ class LocalStub(MixteraClient):
             logger.warning(f"We already have a query for job {query.job_id}!")
             return False
 
+        self._reset_mixture_id()
         cache_path = None
         if (cached_results := self._query_cache.get_queryresults_if_cached(query)) is not None:
             query.results = cached_results[0]
@@ -211,6 +212,7 @@ class LocalStub(MixteraClient):
                 query,
                 mixture if mixture is not None else distri._query_result._mixture,
             )
+        self._reset_mixture_id()
 
     def process_feedback(self, job_id: str, feedback: ClientFeedback) -> bool:
         if job_id not in self._training_query_map:
diff --git a/mixtera/core/client/mixtera_client.py b/mixtera/core/client/mixtera_client.py
index b7648c9..676bcc9 100644
--- a/mixtera/core/client/mixtera_client.py
+++ b/mixtera/core/client/mixtera_client.py
@@ -147,6 +147,11 @@ class MixteraClient(ABC):
 
         return None if val < 0 else val
 
+    def _reset_mixture_id(self) -> None:
+        """Forgets the current mixture, as a client does when it starts or restores a job."""
+        with self.current_mixture_id_val.get_lock():
+            self.current_mixture_id_val.get_obj().value = -1
+
     @abstractmethod
     def register_dataset(
         self,
@@ -288,9 +293,7 @@ class MixteraClient(ABC):
             )
             yield from result_chunk
 
-        with self.current_mixture_id_val.get_lock():
-            self.current_mixture_id_val.get_obj().value = -1
-            # logger.debug("Reset current mixture ID to -1.")
+        # The mixture id is kept at the end of a stream: the training loop still has to report on the last batches.
 
     @abstractmethod
     def _stream_result_chunks(
diff --git a/mixtera/core/client/server/server_stub.py b/mixtera/core/client/server/server_stub.py
index 3025a9a..b1e2fa8 100644
--- a/mixtera/core/client/server/server_stub.py
+++ b/mixtera/core/client/server/server_stub.py
@@ -71,6 +71,7 @@ class ServerStub(MixteraClient):
             logger.error("Could not register query at server!")
             return False
 
+        self._reset_mixture_id()
         logger.info(f"Started query registration for job {query.job_id} at server!")
 
         return True
@@ -133,6 +134,7 @@ class ServerStub(MixteraClient):
         return self.server_connection.checkpoint_completed(job_id, chkpnt_id, on_disk)
 
     def restore_checkpoint(self, job_id: str, chkpnt_id: str) -> None:
+        self._reset_mixture_id()
         return self.server_connection.restore_checkpoint(job_id, chkpnt_id)
 
     def wait_for_execution(self, job_id: str) -> bool:
-- 
2.43.0


From 05002a9ace3365fd0ad6983670b4bfe7b669d341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:28 +0000
Subject: [PATCH 49/58] fix: a failed restore forgets the current mixture
 locally as it does remotely

---
 mixtera/core/client/local/local_stub.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mixtera/core/client/local/local_stub.py b/mixtera/core/client/local/local_stub.py
index 1ae9e11..edb6411 100644
--- a/mixtera/core/client/local/local_stub.py
+++ b/mixtera/core/client/local/local_stub.py
@@ -193,6 +193,7 @@ class LocalStub(MixteraClient):
         return self._get_query_chunk_distributor(job_id).checkpoint_completed(chkpnt_id, on_disk)
 
     def restore_checkpoint(self, job_id: str, chkpnt_id: str) -> None:
+        self._reset_mixture_id()
         query = None
         mixture = None
         with self._training_query_map_lock:
@@ -212,7 +213,6 @@ class LocalStub(MixteraClient):
                 query,
                 mixture if mixture is not None else distri._query_result._mixture,
             )
-        self._reset_mixture_id()
 
     def process_feedback(self, job_id: str, feedback: ClientFeedback) -> bool:
         if job_id not in self._training_query_map:
-- 
2.43.0


From b6875101a12773fa6b13937b76a6a48fc7a73cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:00 +0000
Subject: [PATCH 50/58] fix: an interrupted write of the query cache does not
 leave an entry that is considered complete

---
 mixtera/core/query/query_cache.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mixtera/core/query/query_cache.py b/mixtera/core/query/query_cache.py
index 92a8a36..f9ebefe 100644
--- a/mixtera/core/query/query_cache.py
+++ b/mixtera/core/query/query_cache.py
@@ -46,14 +46,14 @@ class QueryCache:
         # Prepare the cache metadata
         cache_obj = {"db_version": db_ver, "query_str": str(query)}
 
-        # Save the metadata
+        # Call the to_cache method on query.results to serialize it
+        query.results.to_cache(query_dir)
+
+        # Save the metadata. This needs to be last, as a directory with metadata is considered to be complete.
         meta_path = query_dir / "meta.pkl"
         with meta_path.open("wb") as f:
             pickle.dump(cache_obj, f, protocol=pickle.HIGHEST_PROTOCOL)
 
-        # Call the to_cache method on query.results to serialize it
-        query.results.to_cache(query_dir)
-
         logger.debug(f"QueryResult saved to {query_dir}")
         return query_dir
 
-- 
2.43.0


From 3a49a3648d64bf588c462ad647a2754174b05e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:11 +0000
Subject: [PATCH 51/58] fix: results cached before an interrupted removal of a
 dataset are outdated

---
 mixtera/core/datacollection/mixtera_data_collection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mixtera/core/datacollection/mixtera_data_collection.py b/mixtera/core/datacollection/mixtera_data_collection.py
index 07cf359..f32175f 100644
--- a/mixtera/core/datacollection/mixtera_data_collection.py
+++ b/mixtera/core/datacollection/mixtera_data_collection.py
@@ -433,6 +433,8 @@ class MixteraDataCollection:
             return False
 
         try:
+            # If we get interrupted in the middle, cached results must not be considered up to date afterwards.
+            self._db_incr_version()
             delete_samples_query = """
             DELETE FROM samples
             WHERE dataset_id IN (
-- 
2.43.0


From 25a54c2bf03b2e0d8e6d3997daa4314c532cb200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:22 +0000
Subject: [PATCH 52/58] fix: an interrupted initialization of the database does
 not make the directory unusable

---
 mixtera/core/datacollection/mixtera_data_collection.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mixtera/core/datacollection/mixtera_data_collection.py b/mixtera/core/datacollection/mixtera_data_collection.py
index f32175f..ec62c08 100644
--- a/mixtera/core/datacollection/mixtera_data_collection.py
+++ b/mixtera/core/datacollection/mixtera_data_collection.py
@@ -76,6 +76,11 @@ class MixteraDataCollection:
         assert self._database_path.exists()
         logger.info(f"Loading database from {self._database_path}")
         conn = duckdb.connect(str(self._database_path))
+        if conn.execute("SELECT COUNT(*) FROM duckdb_tables() WHERE table_name = 'version'").fetchone() == (0,):
+            logger.warning("The initialization of the database has been interrupted.")
+            conn.close()
+            self._database_path.unlink()
+            return self._init_database()
         logger.info("Database loaded.")
         return conn
 
@@ -85,6 +90,7 @@ class MixteraDataCollection:
         logger.info("Initializing database.")
         conn = duckdb.connect(str(self._database_path))
         cur = conn.cursor()
+        cur.begin()  # Do not leave behind a partially initialized database
 
         # Dataset table
         cur.execute("CREATE SEQUENCE seq_dataset_id START 1;")
@@ -116,6 +122,7 @@ class MixteraDataCollection:
         )
         cur.execute("CREATE TABLE IF NOT EXISTS version (id INTEGER PRIMARY KEY, version_number INTEGER)")
         cur.execute("INSERT INTO version (id, version_number) VALUES (1, 1)")
+        cur.commit()
         conn.commit()
         logger.info("Database initialized.")
         return conn
-- 
2.43.0


From 4e9b629f681b5a9b880c765258753ddc9c85f02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:00 +0000
Subject: [PATCH 53/58] fix: the leaves of a hierarchical mixture get their
 exact share of a chunk

---
 .../query/mixture/hierarchical_static_mixture.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/mixtera/core/query/mixture/hierarchical_static_mixture.py b/mixtera/core/query/mixture/hierarchical_static_mixture.py
index 879dcc8..be8a0c5 100644
--- a/mixtera/core/query/mixture/hierarchical_static_mixture.py
+++ b/mixtera/core/query/mixture/hierarchical_static_mixture.py
@@ -1,8 +1,10 @@
 from dataclasses import dataclass
+from math import isclose
 from typing import TYPE_CHECKING, List
 
 from mixtera.core.query.mixture.mixture import Mixture
 from mixtera.core.query.mixture.mixture_key import MixtureKey
+from mixtera.core.query.mixture.static_mixture import StaticMixture
 
 if TYPE_CHECKING:
     from mixtera.core.datacollection.index import ChunkerIndex
@@ -49,17 +51,13 @@ class HierarchicalStaticMixture(Mixture):
 
     def parse_mixture_node(self, chunk_size: int, user_mixture: MixtureNode) -> dict[MixtureKey, int]:
         formatted_user_mixture = self.convert_to_mixture_key_format(user_mixture)
-        for key, val in formatted_user_mixture.items():
-            assert val >= 0, "Mixture values must be non-negative."
-            assert isinstance(key, MixtureKey), "Mixture keys must be of type MixtureKey."
 
-        mixture = {key: int(chunk_size * val) for key, val in formatted_user_mixture.items()}
+        # Renormalize to reduce deviance from 1.0, e.g., due to multiplying the weights of nested components
+        total_weight = sum(formatted_user_mixture.values())
+        if isclose(total_weight, 1.0, rel_tol=1e-3):
+            formatted_user_mixture = {key: val / total_weight for key, val in formatted_user_mixture.items()}
 
-        # Ensure approximation errors do not affect final chunk size
-        if (diff := chunk_size - sum(mixture.values())) > 0:
-            mixture[list(mixture.keys())[0]] += diff
-
-        return mixture
+        return StaticMixture.parse_user_mixture(chunk_size, formatted_user_mixture)
 
     def convert_to_mixture_key_format(self, mixture: MixtureNode) -> dict[MixtureKey, float]:
         mixture_keys = {}
-- 
2.43.0


From 0e8655dff8ea05e332eb5377737913b6e0b13e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:31 +0000
Subject: [PATCH 54/58] fix: an entry of the query cache with incompletely
 written metadata is not used

---
 mixtera/core/query/query_cache.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mixtera/core/query/query_cache.py b/mixtera/core/query/query_cache.py
index f9ebefe..96e1524 100644
--- a/mixtera/core/query/query_cache.py
+++ b/mixtera/core/query/query_cache.py
@@ -50,9 +50,12 @@ class QueryCache:
         query.results.to_cache(query_dir)
 
         # Save the metadata. This needs to be last, as a directory with metadata is considered to be complete.
+        # For the same reason, the metadata may only be found under its name when it has been written completely.
         meta_path = query_dir / "meta.pkl"
-        with meta_path.open("wb") as f:
+        tmp_path = query_dir / "meta.pkl.tmp"
+        with tmp_path.open("wb") as f:
             pickle.dump(cache_obj, f, protocol=pickle.HIGHEST_PROTOCOL)
+        tmp_path.rename(meta_path)
 
         logger.debug(f"QueryResult saved to {query_dir}")
         return query_dir
-- 
2.43.0


From f503f0caac289bfbd6f1686e9e131482c4a3e681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:37 +0000
Subject: [PATCH 55/58] fix: register locations given with a file:// prefix

---
 mixtera/core/datacollection/mixtera_data_collection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mixtera/core/datacollection/mixtera_data_collection.py b/mixtera/core/datacollection/mixtera_data_collection.py
index ec62c08..50d6164 100644
--- a/mixtera/core/datacollection/mixtera_data_collection.py
+++ b/mixtera/core/datacollection/mixtera_data_collection.py
@@ -156,6 +156,9 @@ class MixteraDataCollection:
         parsing_func: Callable[[str], str],
         metadata_parser_type: str,
     ) -> bool:
+        # Local paths may be given with a file:// prefix, the datasets and parsers work on plain paths
+        loc = str(loc).removeprefix("file://")
+
         if (dataset_id := self._insert_dataset_into_table(identifier, loc, dtype, parsing_func)) == -1:
             return False
 
-- 
2.43.0


From 94fdc8371c76a45acf3a8616ac119ab66ceee50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:10 +0000
Subject: [PATCH 56/58] fix: publish the worker positions also after the
 iteration has ended

---
 mixtera/hf/mixtera_hf_dataset.py       | 4 +++-
 mixtera/torch/mixtera_torch_dataset.py | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/mixtera/hf/mixtera_hf_dataset.py b/mixtera/hf/mixtera_hf_dataset.py
index 62a7889..194ae8d 100644
--- a/mixtera/hf/mixtera_hf_dataset.py
+++ b/mixtera/hf/mixtera_hf_dataset.py
@@ -87,7 +87,7 @@ class _MixteraHFIterable(MixteraTorchDataset, datasets.iterable_dataset._BaseExa
 
         res_args = deepcopy(self._res_str_args)
         res_args.worker_id = index
-        return _MixteraHFIterable(
+        sharded = _MixteraHFIterable(
             self._client,
             self._query,
             self._query_execution_args,
@@ -97,6 +97,8 @@ class _MixteraHFIterable(MixteraTorchDataset, datasets.iterable_dataset._BaseExa
             _comp_shm=self._comp_shm,
             completion_lock=self.completion_lock,
         )
+        sharded._final_status = self._final_status  # Shared, just as the shared memory itself
+        return sharded
 
     def validate_state(self) -> None:
         assert self._shard_call_count > 0, (
diff --git a/mixtera/torch/mixtera_torch_dataset.py b/mixtera/torch/mixtera_torch_dataset.py
index e8819e2..40d7104 100644
--- a/mixtera/torch/mixtera_torch_dataset.py
+++ b/mixtera/torch/mixtera_torch_dataset.py
@@ -64,6 +64,7 @@ class MixteraTorchDataset(IterableDataset):
         self._query_execution_args = query_execution_args
         self._status_shm = _status_shm
         self._comp_shm = _comp_shm
+        self._final_status: list[int] = []  # Positions of the workers after the shared memory has been closed
         self._checkpoint_path = checkpoint_path
         self.requires_callback = False
         self._return_key_id = return_key_id
@@ -204,6 +205,8 @@ class MixteraTorchDataset(IterableDataset):
         try:
             if self._status_shm is not None:
                 any_close = True
+                # A checkpoint may still be taken after the iteration has ended
+                self._final_status[:] = self.worker_status or []
                 self._status_shm.close()
                 if unlink:
                     self._status_shm.unlink()
@@ -238,8 +241,8 @@ class MixteraTorchDataset(IterableDataset):
 
     @property
     def worker_status(self) -> list[int] | None:
-        if self._status_shm is None:
-            return None
+        if self._status_shm is None or self._status_shm.buf is None:
+            return list(self._final_status) or None
 
         try:
             return np.ndarray((self.num_workers,), dtype=np.int64, buffer=self._status_shm.buf).tolist()
-- 
2.43.0


From 8026b08cd338772f074c5acce70b9c1babf7579d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:02 +0000
Subject: [PATCH 57/58] fix: let checkpoints follow a failed one

---
 mixtera/core/query/chunk_distributor.py | 28 ++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/mixtera/core/query/chunk_distributor.py b/mixtera/core/query/chunk_distributor.py
index 40fce68..a7b9c31 100644
--- a/mixtera/core/query/chunk_distributor.py
+++ b/mixtera/core/query/chunk_distributor.py
@@ -384,15 +384,23 @@ class ChunkDistributor:
         # the QueryResult will be pickled when we start another process.
         # This means we cannot store the result in another process - the expensive operation is the pickling.
         directory_to_copy = None
-        if self._checkpoint_id_counter.value == 1:
-            logger.debug("This is the first checkpoint.")
+        query_dir = chkpnt_dir / "queryresult"
+        if self._checkpoint_id_counter.value == 1 and query_dir.exists():
+            raise FileExistsError(f"There already are checkpoints of another run at {chkpnt_dir}.")
+
+        if not query_dir.exists():
+            logger.debug("This is the first checkpoint (or none has stored the QueryResult yet).")
             if self._cached_query is not None and self._cached_query.exists():
                 logger.debug("Copying cached QueryResult to setup initial checkpoint in subprocess.")
                 directory_to_copy = self._cached_query
             else:
                 logger.debug("Query has not been cached - pickling now. This may take some time.")
-                (chkpnt_dir / "queryresult").mkdir(parents=True)
-                self._query_result.to_cache(chkpnt_dir / "queryresult")
+                # If we fail in between, the next checkpoint must not mistake this for a complete QueryResult
+                incomplete_dir = chkpnt_dir / f"queryresult.{checkpoint_id}"
+                shutil.rmtree(incomplete_dir, ignore_errors=True)
+                incomplete_dir.mkdir(parents=True)
+                self._query_result.to_cache(incomplete_dir)
+                incomplete_dir.rename(query_dir)
             logger.debug("Handled pickling of QueryResult.")
 
         if hasattr(self._query_result, "_mixture") and self._query_result._mixture is not None:
@@ -479,7 +487,17 @@ class ChunkDistributor:
         try:
             if directory_to_copy is not None:
                 logger.debug("Starting to copy directory in process.")
-                shutil.copytree(directory_to_copy, chkpnt_dir / "queryresult")
+                # If we fail in between, the next checkpoint must not mistake this for a complete QueryResult
+                incomplete_dir = chkpnt_dir / f"queryresult.{checkpoint_id}"
+                shutil.rmtree(incomplete_dir, ignore_errors=True)
+                shutil.copytree(directory_to_copy, incomplete_dir)
+                try:
+                    incomplete_dir.rename(chkpnt_dir / "queryresult")
+                except OSError:
+                    if not (chkpnt_dir / "queryresult").exists():
+                        raise
+                    # Another checkpoint running at the same time has been faster
+                    shutil.rmtree(incomplete_dir)
                 logger.debug("Directory copied..")
 
             assert (
-- 
2.43.0


From 7f785bd2ce6e325df5d6fda8c46a8c2bdb1d3e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:24 +0000
Subject: [PATCH 58/58] fix: do not end the stream of chunks if the mixture log
 cannot be written

---
 mixtera/core/query/query_result.py | 40 +++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/mixtera/core/query/query_result.py b/mixtera/core/query/query_result.py
index 02a703e..47ef546 100644
--- a/mixtera/core/query/query_result.py
+++ b/mixtera/core/query/query_result.py
@@ -40,6 +40,9 @@ class QueryResult:
     dataset/file ids to their respective types, paths and parsing functions.
     """
 
+    # Whether the mixture log on disk misses an update, as it could not be written
+    _mixture_log_outdated = False
+
     def __init__(
         self,
         mdc: MixteraDataCollection,
@@ -123,25 +126,38 @@ class QueryResult:
 
         logger.debug("Persisting mixture log to disk...")
 
-        with open(self._query_log_dir / "mixture.log", "w", encoding="utf-8") as fp:
-            json.dump(
-                {
-                    "log:": {chk_id: mixture.stringified_mixture() for chk_id, mixture in self._mixture_log},
-                    "curr_chunk_idx": curr_chunk_idx,
-                },
-                fp,
-                indent=4,
-                sort_keys=True,
-            )
+        try:
+            with open(self._query_log_dir / "mixture.log", "w", encoding="utf-8") as fp:
+                json.dump(
+                    {
+                        "log:": {chk_id: mixture.stringified_mixture() for chk_id, mixture in self._mixture_log},
+                        "curr_chunk_idx": curr_chunk_idx,
+                    },
+                    fp,
+                    indent=4,
+                    sort_keys=True,
+                )
+        except OSError as e:
+            # An error here would end the generator, i.e., silently end the stream of chunks. Try again with the next chunk.
+            logger.error(f"Could not persist the mixture log: {e}")
+            self._mixture_log_outdated = True
+            return
 
+        self._mixture_log_outdated = False
         logger.debug("Mixture log persisted.")
 
     def _persist_chunk_idx(self, current_chunk_index: int) -> None:
         if self._query_log_dir is None:
             return
 
-        with open(self._query_log_dir / "chunk.idx", "w", encoding="utf-8") as fp:
-            fp.write(str(current_chunk_index))
+        if self._mixture_log_outdated:
+            self._persist_mixture_log()
+
+        try:
+            with open(self._query_log_dir / "chunk.idx", "w", encoding="utf-8") as fp:
+                fp.write(str(current_chunk_index))
+        except OSError as e:
+            logger.error(f"Could not persist the chunk index: {e}")
 
     def _parse_meta(self, mdc: MixteraDataCollection, results: pa.Table) -> dict:
         dataset_ids = set(pc.unique(results["dataset_id"]).to_pylist())
-- 
2.43.0

