From 3fc54c15ee51891038aea39d1ebbfafffd2a764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:48 +0000
Subject: [PATCH 01/64] fix: apply train-level imbalance to graph splits

A plan with imbalance.apply_to=train (the default) was silently ignored for
graph datasets; only the inductive path shrank the training part.
---
 src/modssc/sampling/services/service.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modssc/sampling/services/service.py b/src/modssc/sampling/services/service.py
index 52894bd..4b8177f 100644
--- a/src/modssc/sampling/services/service.py
+++ b/src/modssc/sampling/services/service.py
@@ -440,10 +440,14 @@ def _sample_graph(
     # labeling happens inside train_mask
     train_idx = np.where(train_mask)[0].astype(np.int64)
 
+    rng_imb = np.random.default_rng(seed_imb)
+    if plan.imbalance.apply_to == "train":
+        train_idx = apply_imbalance(idx=train_idx, y=y, spec=plan.imbalance, rng=rng_imb)
+        train_mask = _idx_to_mask(n_nodes, train_idx)
+
     rng_lab = np.random.default_rng(seed_label)
     labeled_idx = select_labeled(train_idx=train_idx, y=y, spec=plan.labeling, rng=rng_lab)
 
-    rng_imb = np.random.default_rng(seed_imb)
     if plan.imbalance.apply_to == "labeled":
         labeled_idx = apply_imbalance(idx=labeled_idx, y=y, spec=plan.imbalance, rng=rng_imb)
 
-- 
2.43.0


From 18a42cfdbb14995de990cf9effc019c3fd1f055d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:14 +0000
Subject: [PATCH 02/64] fix: accept string paths in save_split and load_split

The documentation calls both with plain strings, which raised AttributeError.
---
 src/modssc/sampling/storage.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modssc/sampling/storage.py b/src/modssc/sampling/storage.py
index b26bd72..4474bc0 100644
--- a/src/modssc/sampling/storage.py
+++ b/src/modssc/sampling/storage.py
@@ -9,8 +9,8 @@ from modssc.sampling.result import SamplingResult
 from modssc.utils.io import atomic_write_text as _atomic_write_text
 
 
-def save_split(result: SamplingResult, out_dir: Path, *, overwrite: bool = False) -> Path:
-    out_dir = out_dir.expanduser().resolve()
+def save_split(result: SamplingResult, out_dir: str | Path, *, overwrite: bool = False) -> Path:
+    out_dir = Path(out_dir).expanduser().resolve()
     if out_dir.exists() and not overwrite:
         raise FileExistsError(f"{out_dir} already exists, pass overwrite=True")
     out_dir.mkdir(parents=True, exist_ok=True)
@@ -37,8 +37,8 @@ def save_split(result: SamplingResult, out_dir: Path, *, overwrite: bool = False
     return out_dir
 
 
-def load_split(dir_path: Path) -> SamplingResult:
-    dir_path = dir_path.expanduser().resolve()
+def load_split(dir_path: str | Path) -> SamplingResult:
+    dir_path = Path(dir_path).expanduser().resolve()
     meta = json.loads((dir_path / "split.json").read_text(encoding="utf-8"))
     npz = np.load(dir_path / "arrays.npz", allow_pickle=False)
 
-- 
2.43.0


From 8c638be50c47c0e9ef8814b3874bee7eb59c2d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:31 +0000
Subject: [PATCH 03/64] fix: never load a half-overwritten split as a valid one

save_split replaced split.json before arrays.npz, so an interruption while
overwriting left new metadata next to old (or truncated) arrays.
---
 src/modssc/sampling/storage.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modssc/sampling/storage.py b/src/modssc/sampling/storage.py
index 4474bc0..3d23a7a 100644
--- a/src/modssc/sampling/storage.py
+++ b/src/modssc/sampling/storage.py
@@ -25,7 +25,7 @@ def save_split(result: SamplingResult, out_dir: str | Path, *, overwrite: bool =
         "stats": dict(result.stats),
         "mode": "graph" if result.is_graph() else "inductive",
     }
-    _atomic_write_text(out_dir / "split.json", json.dumps(meta, indent=2, sort_keys=True) + "\n")
+    meta_text = json.dumps(meta, indent=2, sort_keys=True) + "\n"
 
     arrays: dict[str, np.ndarray] = {}
     for k, v in result.indices.items():
@@ -33,7 +33,11 @@ def save_split(result: SamplingResult, out_dir: str | Path, *, overwrite: bool =
     for k, v in result.masks.items():
         arrays[f"mask__{k}"] = np.asarray(v, dtype=bool)
 
+    # split.json marks a complete split: drop it first and write it last, so that an
+    # interrupted save is never loaded as a mixture of two splits.
+    (out_dir / "split.json").unlink(missing_ok=True)
     np.savez_compressed(out_dir / "arrays.npz", **arrays)
+    _atomic_write_text(out_dir / "split.json", meta_text)
     return out_dir
 
 
-- 
2.43.0


From f284182295c0900c8ee219997dedf4aef367ef8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:22 +0000
Subject: [PATCH 04/64] fix: keep the dataset cache lock exclusive under
 contention

A process that failed to take the lock removed the holder's lock file, letting a
third one in, and the loser raised FileExistsError instead of waiting.
---
 src/modssc/data_loader/cache.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/modssc/data_loader/cache.py b/src/modssc/data_loader/cache.py
index 5f0321e..08ac3af 100644
--- a/src/modssc/data_loader/cache.py
+++ b/src/modssc/data_loader/cache.py
@@ -12,6 +12,11 @@ from typing import Any
 
 from platformdirs import user_cache_dir
 
+try:
+    import fcntl
+except ImportError:  # pragma: no cover
+    fcntl = None  # type: ignore[assignment]
+
 from modssc.data_loader.errors import ManifestError
 from modssc.data_loader.manifest import Manifest, read_manifest
 from modssc.runtime.paths import default_local_cache_subdir
@@ -88,22 +93,36 @@ def ensure_layout(layout: CacheLayout) -> None:
 
 @contextmanager
 def cache_lock(layout: CacheLayout, fingerprint: str) -> Iterator[None]:
-    """Simple file lock using O_EXCL creation."""
+    """Exclusive per-fingerprint lock: waits for the current holder, survives dead holders."""
     ensure_layout(layout)
     lock_path = layout.lock_path(fingerprint)
     lock_path.parent.mkdir(parents=True, exist_ok=True)
 
-    fd: int | None = None
+    fd = _acquire_lock(lock_path)
     try:
-        fd = os.open(str(lock_path), os.O_CREAT | os.O_EXCL | os.O_WRONLY)
         os.write(fd, str(os.getpid()).encode("utf-8"))
         yield
     finally:
-        if fd is not None:
-            os.close(fd)
-        # best effort cleanup
-        with contextlib.suppress(Exception):
+        # Only the holder removes the file, and it does so before letting go of the lock.
+        with contextlib.suppress(OSError):
             lock_path.unlink(missing_ok=True)
+        os.close(fd)
+
+
+def _acquire_lock(lock_path: Path) -> int:
+    if fcntl is None:  # pragma: no cover
+        return os.open(str(lock_path), os.O_CREAT | os.O_EXCL | os.O_WRONLY)
+    while True:
+        fd = os.open(str(lock_path), os.O_CREAT | os.O_RDWR)
+        try:
+            fcntl.flock(fd, fcntl.LOCK_EX)  # released by the OS when the holder dies
+            with contextlib.suppress(FileNotFoundError):
+                if os.path.samestat(os.fstat(fd), os.stat(lock_path)):
+                    return fd
+        except BaseException:
+            os.close(fd)
+            raise
+        os.close(fd)  # the previous holder removed this file: try again
 
 
 def is_cached(layout: CacheLayout, fingerprint: str) -> bool:
-- 
2.43.0


From fc0e1af2c9bb67e00c680ebce0f51f88016266c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:22 +0000
Subject: [PATCH 05/64] fix: never treat an interrupted dataset refresh as a
 cached dataset

A forced download removed the stored arrays while the old manifest stayed, so an
interruption left an entry that counted as cached but failed to load for good. The
manifest is now dropped before the data and written atomically after it.
---
 src/modssc/data_loader/manifest.py         | 4 ++--
 src/modssc/data_loader/services/service.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/modssc/data_loader/manifest.py b/src/modssc/data_loader/manifest.py
index fdc2ff2..9dafa1b 100644
--- a/src/modssc/data_loader/manifest.py
+++ b/src/modssc/data_loader/manifest.py
@@ -11,6 +11,7 @@ from typing import Any
 
 from modssc.data_loader.storage.json import to_jsonable as _jsonable
 from modssc.data_loader.types import DatasetIdentity, LoadedDataset
+from modssc.utils.io import atomic_write_text
 
 
 def utc_now_iso() -> str:
@@ -112,8 +113,7 @@ def build_manifest(
 
 
 def write_manifest(path: Path, manifest: Manifest) -> None:
-    path.parent.mkdir(parents=True, exist_ok=True)
-    path.write_text(manifest.to_json() + "\n", encoding="utf-8")
+    atomic_write_text(path, manifest.to_json() + "\n")
 
 
 def read_manifest(path: Path) -> Manifest:
diff --git a/src/modssc/data_loader/services/service.py b/src/modssc/data_loader/services/service.py
index 124c009..a318e30 100644
--- a/src/modssc/data_loader/services/service.py
+++ b/src/modssc/data_loader/services/service.py
@@ -464,7 +464,8 @@ def _download_and_store(
             ds = replace(ds, meta={})
         ds.meta["dataset_fingerprint"] = fp
 
-        # store processed
+        # store processed; the manifest marks a complete entry, so it goes first and comes back last
+        layout.manifest_path(fp).unlink(missing_ok=True)
         processed_dir = layout.processed_dir(fp)
         if processed_dir.exists():
             # clean partial state
-- 
2.43.0


From bcc37cc14422ac599301c81a5fb179de05898bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:41 +0000
Subject: [PATCH 06/64] fix: refuse to purge a fingerprint that is not a cache
 entry name

purge --fingerprint joined its argument to the cache path unchecked, so '..' or an
absolute path removed directories outside the dataset cache.
---
 src/modssc/cli/datasets.py      | 5 ++++-
 src/modssc/data_loader/cache.py | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modssc/cli/datasets.py b/src/modssc/cli/datasets.py
index 5538d6e..8a789b1 100644
--- a/src/modssc/cli/datasets.py
+++ b/src/modssc/cli/datasets.py
@@ -145,7 +145,10 @@ def cache_purge(
         configure_logging(log_level)
     layout = api._layout(cache_dir)
     if fingerprint:
-        api.cache.purge_fingerprint(layout, dataset_or_fp)
+        try:
+            api.cache.purge_fingerprint(layout, dataset_or_fp)
+        except DataLoaderError as exc:
+            exit_with_error(str(exc))
         typer.echo(f"Purged fingerprint: {dataset_or_fp}")
     else:
         fps = api.cache.purge_dataset(layout, dataset_or_fp)
diff --git a/src/modssc/data_loader/cache.py b/src/modssc/data_loader/cache.py
index 08ac3af..9580eaf 100644
--- a/src/modssc/data_loader/cache.py
+++ b/src/modssc/data_loader/cache.py
@@ -284,6 +284,8 @@ def rebuild_index(layout: CacheLayout) -> None:
 
 
 def purge_fingerprint(layout: CacheLayout, fingerprint: str) -> None:
+    if fingerprint in ("", ".", "..") or Path(fingerprint).name != fingerprint:
+        raise ManifestError(f"Invalid dataset fingerprint: {fingerprint!r}")
     shutil.rmtree(layout.processed_dir(fingerprint), ignore_errors=True)
     with contextlib.suppress(Exception):
         layout.manifest_path(fingerprint).unlink(missing_ok=True)
-- 
2.43.0


From 9f94bc7bc5e8da154fb8963b1e403f3baafb2143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:42 +0000
Subject: [PATCH 07/64] fix: drop the manifest first when purging a dataset

An interrupted purge left a partly removed directory that still counted as cached.
---
 src/modssc/data_loader/cache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modssc/data_loader/cache.py b/src/modssc/data_loader/cache.py
index 9580eaf..7cb2e53 100644
--- a/src/modssc/data_loader/cache.py
+++ b/src/modssc/data_loader/cache.py
@@ -286,9 +286,10 @@ def rebuild_index(layout: CacheLayout) -> None:
 def purge_fingerprint(layout: CacheLayout, fingerprint: str) -> None:
     if fingerprint in ("", ".", "..") or Path(fingerprint).name != fingerprint:
         raise ManifestError(f"Invalid dataset fingerprint: {fingerprint!r}")
-    shutil.rmtree(layout.processed_dir(fingerprint), ignore_errors=True)
+    # the manifest marks a complete entry: without it a half-removed directory is not cached
     with contextlib.suppress(Exception):
         layout.manifest_path(fingerprint).unlink(missing_ok=True)
+    shutil.rmtree(layout.processed_dir(fingerprint), ignore_errors=True)
     index_delete(layout, [fingerprint])
 
 
-- 
2.43.0


From dca835122c0c820b66dca299791c295f6f80025b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:40 +0000
Subject: [PATCH 08/64] fix: store object arrays of sequences without reshaping
 or failing

Object arrays whose elements are all empty arrays crashed the dataset store, and
arrays of equal-length string lists came back with an extra dimension.
---
 src/modssc/data_loader/storage/files.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modssc/data_loader/storage/files.py b/src/modssc/data_loader/storage/files.py
index 0fe7ab2..b254fa0 100644
--- a/src/modssc/data_loader/storage/files.py
+++ b/src/modssc/data_loader/storage/files.py
@@ -35,7 +35,9 @@ def _is_str_object_array(arr: np.ndarray) -> bool:
         return False
     # conservative: require every element to be str
     try:
-        return all(isinstance(x, str) for x in np.asarray(items, dtype=object).flat)
+        plain = np.asarray(items, dtype=object)
+        # nested sequences would be unpacked: only arrays that keep their shape are text arrays
+        return plain.shape == arr.shape and all(isinstance(x, str) for x in plain.flat)
     except Exception:
         return False
 
-- 
2.43.0


From f59f50f86b0e576e356e400566f38b4cfe0763a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:51 +0000
Subject: [PATCH 09/64] fix: honour the OpenML target_column option

---
 src/modssc/data_loader/providers/openml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modssc/data_loader/providers/openml.py b/src/modssc/data_loader/providers/openml.py
index 63e8f8a..a0b432e 100644
--- a/src/modssc/data_loader/providers/openml.py
+++ b/src/modssc/data_loader/providers/openml.py
@@ -114,6 +114,9 @@ class OpenMLProvider(BaseProvider):
         if cfg.get("version") is not None:
             kwargs["version"] = cfg["version"]
 
+        if cfg.get("target_column") is not None:
+            kwargs["target_column"] = cfg["target_column"]
+
         X, y = fetch_openml(**kwargs)
 
         X_np = _to_numpy(X)
-- 
2.43.0


From a592a9498e2212be946c53a5a9181c5b97916e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:05 +0000
Subject: [PATCH 10/64] fix: keep purge_unused_artifacts from requiring
 artifacts it dropped

---
 src/modssc/preprocess/services/pipeline.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/modssc/preprocess/services/pipeline.py b/src/modssc/preprocess/services/pipeline.py
index 5567758..96a9c2e 100644
--- a/src/modssc/preprocess/services/pipeline.py
+++ b/src/modssc/preprocess/services/pipeline.py
@@ -336,6 +336,10 @@ def _build_purge_keep_sets(
     return keep_sets
 
 
+def _get_or_require(store: ArtifactStore, key: str, fallback: str) -> Any:
+    return store.require(key) if store.has(key) else store.require(fallback)
+
+
 def _purge_store(store: ArtifactStore, *, keep: set[str]) -> None:
     if not keep:
         store.data = {}
@@ -673,8 +677,8 @@ def preprocess(
 
     # Choose final X for downstream training.
     out_key = plan.output_key
-    X_train = train_store.get(out_key, train_store.require("raw.X"))
-    y_train = train_store.get("labels.y", train_store.require("raw.y"))
+    X_train = _get_or_require(train_store, out_key, "raw.X")
+    y_train = _get_or_require(train_store, "labels.y", "raw.y")
 
     edges_train = train_store.get("graph.edge_index", dataset.train.edges)
     if train_store.has("graph.edge_weight"):
@@ -687,8 +691,8 @@ def preprocess(
 
     test_out = None
     if dataset.test is not None and test_store is not None:
-        X_test = test_store.get(out_key, test_store.require("raw.X"))
-        y_test = test_store.get("labels.y", test_store.require("raw.y"))
+        X_test = _get_or_require(test_store, out_key, "raw.X")
+        y_test = _get_or_require(test_store, "labels.y", "raw.y")
         edges_test = test_store.get("graph.edge_index", dataset.test.edges)
         if test_store.has("graph.edge_weight"):
             edges_test = {
-- 
2.43.0


From 2c2051f15162314398bc38b606c6ea14e32f9c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:26 +0000
Subject: [PATCH 11/64] fix: key the preprocess step cache on every artifact a
 step reads

---
 src/modssc/preprocess/services/pipeline.py | 27 ++++++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/modssc/preprocess/services/pipeline.py b/src/modssc/preprocess/services/pipeline.py
index 96a9c2e..db51b13 100644
--- a/src/modssc/preprocess/services/pipeline.py
+++ b/src/modssc/preprocess/services/pipeline.py
@@ -24,9 +24,17 @@ from modssc.utils.shape import shape_of as _shape_of
 logger = logging.getLogger(__name__)
 
 
+# Artifacts a step reads when they are present, in addition to its declared consumes.
 _IMPLICIT_CONSUMES: dict[str, tuple[str, ...]] = {
+    "core.ensure_2d": ("features.X",),
+    "core.pca": ("raw.X",),
+    "tabular.standard_scaler": ("raw.X",),
+    "tabular.impute": ("raw.X",),
+    "graph.attach_edge_weight": ("graph.edge_weight",),
     "graph.node2vec": ("raw.X", "raw.y"),
-    "graph.dgi": ("raw.X",),
+    "graph.dgi": ("raw.X", "graph.edge_weight"),
+    "graph.sparse_adjacency": ("raw.X", "graph.edge_weight"),
+    "labels.to_torch": ("labels.y",),
 }
 
 
@@ -304,6 +312,15 @@ def _initial_store(split: Split) -> ArtifactStore:
     return store
 
 
+def _step_inputs(step: ResolvedStep) -> tuple[str, ...]:
+    """Return every artifact key a step may read."""
+    inputs = tuple(step.spec.consumes) + _IMPLICIT_CONSUMES.get(step.step_id, ())
+    input_key = step.params.get("input_key")
+    if isinstance(input_key, str):
+        inputs += (input_key,)
+    return inputs
+
+
 def _final_keep_keys(
     steps: tuple[ResolvedStep, ...], *, output_key: str, initial_keys: set[str]
 ) -> set[str]:
@@ -331,8 +348,7 @@ def _build_purge_keep_sets(
     for i in range(len(steps) - 1, -1, -1):
         keep_sets[i] = set(required)
         step = steps[i]
-        required.update(step.spec.consumes)
-        required.update(_IMPLICIT_CONSUMES.get(step.step_id, ()))
+        required.update(_step_inputs(step))
     return keep_sets
 
 
@@ -517,9 +533,10 @@ def preprocess(
         )
 
         # Compute step fingerprint with input provenance.
-        inputs_train = {k: prov_train.get(k) for k in spec.consumes if k in prov_train}
+        input_keys = _step_inputs(step)
+        inputs_train = {k: prov_train.get(k) for k in input_keys if k in prov_train}
         inputs_test = (
-            {k: prov_test.get(k) for k in spec.consumes if k in prov_test} if test_store else {}
+            {k: prov_test.get(k) for k in input_keys if k in prov_test} if test_store else {}
         )
         step_fp = fingerprint(
             {
-- 
2.43.0


From 5a5dc10cc79a404ca21af1fbb69bb8650158c391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:01 +0000
Subject: [PATCH 12/64] fix: reuse cached step outputs for both splits or
 neither

---
 src/modssc/preprocess/services/pipeline.py | 60 ++++++++++++----------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/src/modssc/preprocess/services/pipeline.py b/src/modssc/preprocess/services/pipeline.py
index db51b13..cd1c244 100644
--- a/src/modssc/preprocess/services/pipeline.py
+++ b/src/modssc/preprocess/services/pipeline.py
@@ -17,7 +17,13 @@ from modssc.preprocess.fingerprint import derive_seed, fingerprint
 from modssc.preprocess.plan import PreprocessPlan
 from modssc.preprocess.registry import StepRegistry, default_step_registry
 from modssc.preprocess.store import ArtifactStore
-from modssc.preprocess.types import PreprocessResult, ResolvedPlan, ResolvedStep, SkippedStep
+from modssc.preprocess.types import (
+    PreprocessResult,
+    ResolvedPlan,
+    ResolvedStep,
+    SkippedStep,
+    StepSpec,
+)
 from modssc.runtime.device import _try_import_torch, resolve_device_name
 from modssc.utils.shape import shape_of as _shape_of
 
@@ -278,6 +284,23 @@ def _cache_outputs_complete(outputs: dict[str, Any], produces: tuple[str, ...])
     return expected.issubset(outputs.keys())
 
 
+def _load_cached_outputs(
+    cm: CacheManager | None, step_fp: str, *, split: str, spec: StepSpec
+) -> dict[str, Any] | None:
+    if cm is None or not cm.has_step_outputs(step_fp, split=split):
+        return None
+    try:
+        outputs = cm.load_step_outputs(step_fingerprint=step_fp, split=split)
+        if not _cache_outputs_complete(outputs, spec.produces):
+            raise PreprocessCacheError(
+                f"Incomplete cached outputs for step {spec.step_id!r} ({split})"
+            )
+    except PreprocessCacheError as e:
+        logger.warning("Preprocess cache miss for %s (%s): %s", spec.step_id, split, e)
+        return None
+    return outputs
+
+
 def _dataset_fingerprint(dataset: LoadedDataset) -> str:
     fp = dataset.meta.get("dataset_fingerprint") if hasattr(dataset, "meta") else None
     if isinstance(fp, str) and fp:
@@ -568,19 +591,15 @@ def preprocess(
             step_obj.fit(train_store, fit_indices=np.asarray(fit_indices, dtype=np.int64), rng=rng)
 
         # Load from cache if available, otherwise compute and save.
-        produced_train: dict[str, Any] | None = None
-        train_from_cache = False
-        if cm is not None and cm.has_step_outputs(step_fp, split="train"):
-            try:
-                produced_train = cm.load_step_outputs(step_fingerprint=step_fp, split="train")
-                if not _cache_outputs_complete(produced_train, spec.produces):
-                    raise PreprocessCacheError(
-                        f"Incomplete cached outputs for step {step_id!r} (train)"
-                    )
-                train_from_cache = True
-            except PreprocessCacheError as e:
-                logger.warning("Preprocess cache miss for %s (train): %s", step_id, e)
-                produced_train = None
+        produced_train = _load_cached_outputs(cm, step_fp, split="train", spec=spec)
+        produced_test: dict[str, Any] | None = None
+        if test_store is not None:
+            produced_test = _load_cached_outputs(cm, step_fp, split="test", spec=spec)
+            # Both transforms share the step rng and state: reuse both outputs or neither.
+            if produced_train is None or produced_test is None:
+                produced_train = produced_test = None
+        train_from_cache = produced_train is not None
+        test_from_cache = produced_test is not None
         if produced_train is None:
             produced_train = step_obj.transform(train_store, rng=rng)
             if not isinstance(produced_train, dict):
@@ -616,20 +635,7 @@ def preprocess(
             perf_counter() - step_start,
         )
 
-        produced_test: dict[str, Any] | None = None
-        test_from_cache = False
         if test_store is not None:
-            if cm is not None and cm.has_step_outputs(step_fp, split="test"):
-                try:
-                    produced_test = cm.load_step_outputs(step_fingerprint=step_fp, split="test")
-                    if not _cache_outputs_complete(produced_test, spec.produces):
-                        raise PreprocessCacheError(
-                            f"Incomplete cached outputs for step {step_id!r} (test)"
-                        )
-                    test_from_cache = True
-                except PreprocessCacheError as e:
-                    logger.warning("Preprocess cache miss for %s (test): %s", step_id, e)
-                    produced_test = None
             if produced_test is None:
                 produced_test = step_obj.transform(test_store, rng=rng)
                 if not isinstance(produced_test, dict):
-- 
2.43.0


From 5782a45867e0cf494d7d9a8bc2d029f1991bdb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:17 +0000
Subject: [PATCH 13/64] fix: cache object arrays whose elements JSON cannot
 represent

---
 src/modssc/preprocess/cache.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/modssc/preprocess/cache.py b/src/modssc/preprocess/cache.py
index 7f95172..3dde79d 100644
--- a/src/modssc/preprocess/cache.py
+++ b/src/modssc/preprocess/cache.py
@@ -90,6 +90,10 @@ def _is_scipy_sparse(obj: Any) -> bool:
     return mod.startswith("scipy.sparse")
 
 
+def _is_json_scalar(value: Any) -> bool:
+    return value is None or type(value) in (str, int, float, bool)
+
+
 def _save_json(path: Path, payload: Any, *, extra: dict[str, Any] | None = None) -> dict[str, Any]:
     import json
 
@@ -116,6 +120,14 @@ def _save_value(path: Path, value: Any) -> dict[str, Any] | None:
                 payload = value.tolist()
             except TypeError:
                 return None
+            if value.ndim != 1 or not all(_is_json_scalar(v) for v in payload):
+                # JSON would change the elements or the shape.
+                np.save(path.with_suffix(".npy"), value, allow_pickle=True)
+                return {
+                    "type": "npy",
+                    "path": path.with_suffix(".npy").name,
+                    "allow_pickle": True,
+                }
             return _save_json(path, payload, extra={"format": "ndarray", "dtype": "object"})
         np.save(path.with_suffix(".npy"), value, allow_pickle=False)
         return {"type": "npy", "path": path.with_suffix(".npy").name}
-- 
2.43.0


From 4a44adc3b9e52cbce59b57e252217c7238129080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:54 +0000
Subject: [PATCH 14/64] fix: treat unreadable preprocess cache artifacts as
 cache misses

---
 src/modssc/preprocess/cache.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/modssc/preprocess/cache.py b/src/modssc/preprocess/cache.py
index 3dde79d..4368655 100644
--- a/src/modssc/preprocess/cache.py
+++ b/src/modssc/preprocess/cache.py
@@ -337,7 +337,14 @@ class CacheManager:
         split_path = self.split_dir(step_fingerprint, split)
         for key, desc in saved.items():
             if isinstance(desc, dict):
-                out[str(key)] = _load_value(split_path, desc)
+                try:
+                    out[str(key)] = _load_value(split_path, desc)
+                except (PreprocessCacheError, OptionalDependencyError):
+                    raise
+                except Exception as e:
+                    raise PreprocessCacheError(
+                        f"Failed to load cached artifact {key!r} for step {step_fingerprint}"
+                    ) from e
         return out
 
 
-- 
2.43.0


From 2d84a9f9ca67d0f008cc19e9ef8957b155c6bf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:18 +0000
Subject: [PATCH 15/64] fix: seed torch before initialising node2vec and DGI
 embeddings

---
 src/modssc/preprocess/steps/graph/dgi.py      | 3 +--
 src/modssc/preprocess/steps/graph/node2vec.py | 3 +++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/modssc/preprocess/steps/graph/dgi.py b/src/modssc/preprocess/steps/graph/dgi.py
index f3b18d1..89ac6df 100644
--- a/src/modssc/preprocess/steps/graph/dgi.py
+++ b/src/modssc/preprocess/steps/graph/dgi.py
@@ -145,6 +145,7 @@ def _train_dgi(
         edge_index_t, edge_weight_t = _add_self_loops(edge_index_t, edge_weight_t, n_nodes=n_nodes)
     edge_weight_t = _normalize_edge_weight(edge_index_t, edge_weight_t, n_nodes=n_nodes)
 
+    torch.manual_seed(int(seed))
     encoder = _GCNEncoder(
         X_t.shape[1],
         hidden=int(hidden_dim),
@@ -158,8 +159,6 @@ def _train_dgi(
     )
     bce = torch.nn.BCEWithLogitsLoss()
 
-    torch.manual_seed(int(seed))
-
     for _epoch in range(int(unsup_epochs)):
         encoder.train()
         disc.train()
diff --git a/src/modssc/preprocess/steps/graph/node2vec.py b/src/modssc/preprocess/steps/graph/node2vec.py
index 071920e..eceb568 100644
--- a/src/modssc/preprocess/steps/graph/node2vec.py
+++ b/src/modssc/preprocess/steps/graph/node2vec.py
@@ -97,6 +97,9 @@ class GraphNode2VecStep:
         torch = require(module="torch", extra="transductive-torch", purpose="graph.node2vec")
         dev_name = resolve_device_name(self.device, torch=torch) or "cpu"
         device = torch.device(dev_name)
+        manual_seed = getattr(torch, "manual_seed", None)
+        if manual_seed is not None:
+            manual_seed(seed)
         emb = torch.nn.Embedding(n_nodes, int(self.embedding_dim)).to(device)
         ctx = torch.nn.Embedding(n_nodes, int(self.embedding_dim)).to(device)
         optimizer = torch.optim.Adam(
-- 
2.43.0


From 2d119a3d064e661ee476435f1a2ac041c1086d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:35 +0000
Subject: [PATCH 16/64] fix: encode test labels with the train split's classes

---
 src/modssc/preprocess/steps/labels/encode.py    | 17 +++++++++++++++--
 .../preprocess/steps/labels/ensure_onehot.py    | 13 +++++++++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/modssc/preprocess/steps/labels/encode.py b/src/modssc/preprocess/steps/labels/encode.py
index 373cd96..376bef7 100644
--- a/src/modssc/preprocess/steps/labels/encode.py
+++ b/src/modssc/preprocess/steps/labels/encode.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 
 import numpy as np
 
@@ -10,9 +10,22 @@ from modssc.supervised.utils import encode_labels
 
 @dataclass
 class EncodeLabelsStep:
-    """Encode raw.y to contiguous int64 labels and store labels.y/classes."""
+    """Encode raw.y to contiguous int64 labels and store labels.y/classes.
+
+    The first split (train) defines the encoding; labels only seen in a later split
+    are numbered after the train classes.
+    """
+
+    _classes: np.ndarray | None = field(default=None, init=False, repr=False)
 
     def transform(self, store: ArtifactStore, *, rng: np.random.Generator) -> dict[str, object]:  # noqa: ARG002
         y = store.require("raw.y")
         y_enc, classes = encode_labels(y)
+        if self._classes is None:
+            self._classes = classes
+        else:
+            merged = np.concatenate([self._classes, np.setdiff1d(classes, self._classes)])
+            order = np.argsort(merged)
+            y_enc = order[np.searchsorted(merged, classes, sorter=order)][y_enc].astype(np.int64)
+            classes = merged
         return {"labels.y": y_enc, "labels.classes": classes}
diff --git a/src/modssc/preprocess/steps/labels/ensure_onehot.py b/src/modssc/preprocess/steps/labels/ensure_onehot.py
index 3c0123f..ecda579 100644
--- a/src/modssc/preprocess/steps/labels/ensure_onehot.py
+++ b/src/modssc/preprocess/steps/labels/ensure_onehot.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from typing import Any
 
 import numpy as np
@@ -13,6 +13,8 @@ class EnsureOneHotLabelsStep:
     unlabeled_value: int = -1
     dtype: str = "float32"
 
+    _classes: np.ndarray | None = field(default=None, init=False, repr=False)
+
     def transform(self, store: ArtifactStore, *, rng: np.random.Generator) -> dict[str, Any]:
         y = np.asarray(store.require("raw.y"))
         y_flat = y.reshape(-1)
@@ -23,11 +25,18 @@ class EnsureOneHotLabelsStep:
         else:
             classes = np.asarray([], dtype=y_flat.dtype)
 
+        # The first split (train) defines the columns; unseen labels are appended.
+        if self._classes is None:
+            self._classes = classes
+        else:
+            classes = np.concatenate([self._classes, np.setdiff1d(classes, self._classes)])
+
         C = int(classes.size)
         onehot = np.zeros((y_flat.size, C), dtype=self.dtype)
         if C > 0 and labeled.any():
             rows = np.nonzero(labeled)[0]
-            cols = np.searchsorted(classes, y_flat[labeled])
+            order = np.argsort(classes)
+            cols = order[np.searchsorted(classes, y_flat[labeled], sorter=order)]
             onehot[rows, cols] = 1.0
 
         return {"labels.y_onehot": onehot, "labels.is_labeled": labeled.astype(bool)}
-- 
2.43.0


From 26559845f0dd725712fdbeeeab21c9700a769452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:02 +0000
Subject: [PATCH 17/64] fix: tolerate undecodable preprocess cache manifests

---
 src/modssc/preprocess/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modssc/preprocess/cache.py b/src/modssc/preprocess/cache.py
index 4368655..e85cc1b 100644
--- a/src/modssc/preprocess/cache.py
+++ b/src/modssc/preprocess/cache.py
@@ -304,7 +304,7 @@ class CacheManager:
         payload = dict(manifest)
         if manifest_path.exists():
             try:
-                payload = json_load(manifest_path.read_text(encoding="utf-8"))
+                payload = json_load(manifest_path.read_text(encoding="utf-8", errors="replace"))
             except PreprocessCacheError as e:
                 logger.warning(
                     "Resetting corrupt preprocess manifest: step=%s split=%s error=%s",
@@ -328,7 +328,7 @@ class CacheManager:
         if not manifest_path.exists():
             raise PreprocessCacheError(f"Missing cache manifest for step {step_fingerprint}")
 
-        manifest = manifest_path.read_text()
+        manifest = manifest_path.read_text(encoding="utf-8", errors="replace")
         data = json_load(manifest)
         saved = data.get("saved", {}).get(split, {})
         if not isinstance(saved, dict):
-- 
2.43.0


From 1bfd8f934e4da2ffa04551ddbc9206f272a6c41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:02 +0000
Subject: [PATCH 18/64] fix: convert sparse features to a dense array in
 core.to_numpy

---
 src/modssc/preprocess/steps/core/to_numpy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modssc/preprocess/steps/core/to_numpy.py b/src/modssc/preprocess/steps/core/to_numpy.py
index d5c4767..3cb2cb1 100644
--- a/src/modssc/preprocess/steps/core/to_numpy.py
+++ b/src/modssc/preprocess/steps/core/to_numpy.py
@@ -15,4 +15,6 @@ class ToNumpyStep:
 
     def transform(self, store: ArtifactStore, *, rng: np.random.Generator) -> dict[str, Any]:
         x = store.require("features.X")
+        if hasattr(x, "toarray"):  # scipy sparse
+            x = x.toarray()
         return {"features.X": to_numpy(x)}
-- 
2.43.0


From ade266169eb9caf8d21cbcc90d863552bfd8dbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:09 +0000
Subject: [PATCH 19/64] fix: skip the non-finite warning for text and object
 arrays

---
 src/modssc/preprocess/services/pipeline.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modssc/preprocess/services/pipeline.py b/src/modssc/preprocess/services/pipeline.py
index cd1c244..a024273 100644
--- a/src/modssc/preprocess/services/pipeline.py
+++ b/src/modssc/preprocess/services/pipeline.py
@@ -275,6 +275,8 @@ def _maybe_warn_nonfinite(name: str, value: Any, *, max_elems: int = 1_000_000)
         return
     if int(value.size) > max_elems:
         return
+    if value.dtype.kind in "OSUV":  # text and object arrays have no notion of finiteness
+        return
     if not np.isfinite(value).all():
         logger.warning("Non-finite values detected in %s", name)
 
-- 
2.43.0


From 14f861fd8de8312eefd24863f800b69886fa7a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:23 +0000
Subject: [PATCH 20/64] fix: keep the dataset's own meta unchanged when
 generating views

---
 src/modssc/views/services/service.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modssc/views/services/service.py b/src/modssc/views/services/service.py
index 7f53aea..54a1717 100644
--- a/src/modssc/views/services/service.py
+++ b/src/modssc/views/services/service.py
@@ -209,7 +209,7 @@ def generate_views(
 
         # 3) Meta
         meta: dict[str, Any] = dict(ds.meta) if isinstance(ds.meta, dict) else {}
-        meta.setdefault("views", {})
+        meta["views"] = dict(meta.get("views") or {})
         meta["views"][str(view.name)] = {
             "columns": cols.tolist(),
             "columns_mode": (view.columns.mode if view.columns is not None else "all"),
@@ -217,7 +217,7 @@ def generate_views(
         }
         if view.meta:
             # view-level metadata override/additions
-            meta.setdefault("view_meta", {})
+            meta["view_meta"] = dict(meta.get("view_meta") or {})
             meta["view_meta"][str(view.name)] = dict(view.meta)
 
         views[str(view.name)] = LoadedDataset(train=train_split, test=test_split, meta=meta)
-- 
2.43.0


From 221e26113ace9c1ab2f2781adce9677fb95beb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:32 +0000
Subject: [PATCH 21/64] fix: return exactly k sklearn neighbors among
 duplicated points

---
 src/modssc/graph/construction/backends/sklearn_backend.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modssc/graph/construction/backends/sklearn_backend.py b/src/modssc/graph/construction/backends/sklearn_backend.py
index c3b25bc..d8f4f06 100644
--- a/src/modssc/graph/construction/backends/sklearn_backend.py
+++ b/src/modssc/graph/construction/backends/sklearn_backend.py
@@ -39,6 +39,10 @@ def knn_edges_sklearn(
     dist_flat = dist.reshape(-1)
     if not include_self:
         mask = dst != src
+        # Among duplicated points the row itself may not be returned: drop the farthest neighbor.
+        if n_cols > int(k):
+            keep = mask.reshape(n_rows, n_cols)
+            keep[keep.all(axis=1), int(k) :] = False
         src = src[mask]
         dst = dst[mask]
         dist_flat = dist_flat[mask]
-- 
2.43.0


From 5a30745f6c05211028b9b65635f9ac7ffa574d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:54 +0000
Subject: [PATCH 22/64] fix: never serve a cached graph without its edge
 weights

---
 src/modssc/graph/cache.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/modssc/graph/cache.py b/src/modssc/graph/cache.py
index b8d4694..dd9fc47 100644
--- a/src/modssc/graph/cache.py
+++ b/src/modssc/graph/cache.py
@@ -124,6 +124,9 @@ class GraphCache(_FingerprintCacheOps):
     def _clear_entry_dir(self, d: Path) -> None:
         if not d.exists():
             return
+        # The manifest marks a complete entry: it must not outlive the files it describes.
+        with contextlib.suppress(FileNotFoundError):
+            (d / "manifest.json").unlink()
         # Only remove files we create, keep directory (for resumable work dirs).
         for p in d.iterdir():
             if p.is_dir():
@@ -258,6 +261,10 @@ class GraphCache(_FingerprintCacheOps):
         else:
             edge_index, edge_weight = self._load_edges_single(d)
 
+        has_weight = manifest.get("has_edge_weight", edge_weight is not None)
+        if bool(has_weight) != (edge_weight is not None):
+            raise GraphCacheError(f"Cached edge weights do not match the manifest: {d}")
+
         n_nodes = int(manifest.get("n_nodes"))
         directed = bool(manifest.get("directed", False))
         meta = dict(manifest.get("meta", {}))
@@ -277,6 +284,9 @@ class GraphCache(_FingerprintCacheOps):
         n = 0
         for p in self.root.iterdir():
             if p.is_dir():
+                # The manifest marks a complete entry: an interrupted purge must not keep it.
+                with contextlib.suppress(FileNotFoundError):
+                    (p / "manifest.json").unlink()
                 shutil.rmtree(p, ignore_errors=True)
                 n += 1
         return n
-- 
2.43.0


From 03bc6fa8856801a77bc2ca000f61ab84e88ea4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:21 +0000
Subject: [PATCH 23/64] fix: key the graph views cache on features, weights and
 every edge

---
 src/modssc/graph/featurization/api.py | 29 +++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/modssc/graph/featurization/api.py b/src/modssc/graph/featurization/api.py
index 893f695..45913fc 100644
--- a/src/modssc/graph/featurization/api.py
+++ b/src/modssc/graph/featurization/api.py
@@ -8,7 +8,7 @@ import numpy as np
 
 from ..artifacts import DatasetViews, NodeDataset
 from ..cache import ViewsCache
-from ..fingerprint import fingerprint_dict
+from ..fingerprint import fingerprint_array, fingerprint_dict
 from ..specs import GraphFeaturizerSpec
 from ..validation import validate_featurizer_spec, validate_view_matrix
 from .views.attr import attr_view
@@ -17,10 +17,19 @@ from .views.struct import StructParams, struct_embeddings
 
 logger = logging.getLogger(__name__)
 
+_HASH_ALL = 1 << 62
 
-def _views_fingerprint(*, graph_fingerprint: str, spec: GraphFeaturizerSpec, seed: int) -> str:
+
+def _views_fingerprint(
+    *,
+    graph_fingerprint: str,
+    features_fingerprint: str | None = None,
+    spec: GraphFeaturizerSpec,
+    seed: int,
+) -> str:
     payload = {
         "graph_fingerprint": graph_fingerprint,
+        "features_fingerprint": features_fingerprint,
         "spec": spec.to_dict(),
         "seed": int(seed),
     }
@@ -45,13 +54,21 @@ def graph_to_views(
         graph_fp = fingerprint_dict(
             {
                 "n_nodes": int(dataset.graph.n_nodes),
-                "edge_index": dataset.graph.edge_index[
-                    :2, : min(1000, dataset.graph.edge_index.shape[1])
-                ].tolist(),
+                "edge_index": fingerprint_array(dataset.graph.edge_index, max_bytes=_HASH_ALL),
+                "edge_weight": (
+                    fingerprint_array(dataset.graph.edge_weight, max_bytes=_HASH_ALL)
+                    if dataset.graph.edge_weight is not None
+                    else None
+                ),
             }
         )
 
-    views_fp = _views_fingerprint(graph_fingerprint=graph_fp, spec=spec, seed=int(seed))
+    views_fp = _views_fingerprint(
+        graph_fingerprint=graph_fp,
+        features_fingerprint=fingerprint_array(dataset.X, max_bytes=_HASH_ALL),
+        spec=spec,
+        seed=int(seed),
+    )
 
     cache_enabled = bool(spec.cache) if cache is None else bool(cache)
     cache_store = ViewsCache(
-- 
2.43.0


From 0efe212c354fe78f83207ba82e4c1395604fa91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:56 +0000
Subject: [PATCH 24/64] fix: seed torch before GNN parameters are created so
 fit(seed=...) is reproducible

---
 src/modssc/transductive/methods/gnn/appnp.py     |  6 +++---
 src/modssc/transductive/methods/gnn/chebnet.py   |  2 ++
 src/modssc/transductive/methods/gnn/gat.py       |  9 ++++++++-
 src/modssc/transductive/methods/gnn/gcn.py       | 10 +++++++++-
 src/modssc/transductive/methods/gnn/gcnii.py     | 10 +++++++++-
 src/modssc/transductive/methods/gnn/grand.py     |  3 ++-
 src/modssc/transductive/methods/gnn/graphsage.py |  2 ++
 src/modssc/transductive/methods/gnn/h_gcn.py     |  2 ++
 src/modssc/transductive/methods/gnn/n_gcn.py     |  2 ++
 src/modssc/transductive/methods/gnn/planetoid.py |  3 ++-
 src/modssc/transductive/methods/gnn/sgc.py       | 10 +++++++++-
 11 files changed, 50 insertions(+), 9 deletions(-)

diff --git a/src/modssc/transductive/methods/gnn/appnp.py b/src/modssc/transductive/methods/gnn/appnp.py
index cc30179..7c54fe3 100644
--- a/src/modssc/transductive/methods/gnn/appnp.py
+++ b/src/modssc/transductive/methods/gnn/appnp.py
@@ -10,12 +10,11 @@ import numpy as np
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import (
-    TwoLayerMLP as _MLP,
-)
+from .common import TwoLayerMLP as _MLP
 from .common import (
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     spmm,
     torch,
     train_fullbatch,
@@ -91,6 +90,7 @@ class APPNPMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/chebnet.py b/src/modssc/transductive/methods/gnn/chebnet.py
index 70cf0c9..a32da9a 100644
--- a/src/modssc/transductive/methods/gnn/chebnet.py
+++ b/src/modssc/transductive/methods/gnn/chebnet.py
@@ -13,6 +13,7 @@ from modssc.transductive.optional import optional_import
 from .common import (
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     spmm,
     torch,
     train_fullbatch,
@@ -111,6 +112,7 @@ class ChebNetMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/gat.py b/src/modssc/transductive/methods/gnn/gat.py
index 65c4300..51dd002 100644
--- a/src/modssc/transductive/methods/gnn/gat.py
+++ b/src/modssc/transductive/methods/gnn/gat.py
@@ -10,7 +10,13 @@ import numpy as np
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, torch, train_fullbatch
+from .common import (
+    normalize_device_name,
+    prepare_data_cached,
+    set_torch_seed,
+    torch,
+    train_fullbatch,
+)
 
 logger = logging.getLogger(__name__)
 
@@ -205,6 +211,7 @@ class GATMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/gcn.py b/src/modssc/transductive/methods/gnn/gcn.py
index 379cb1e..82549fe 100644
--- a/src/modssc/transductive/methods/gnn/gcn.py
+++ b/src/modssc/transductive/methods/gnn/gcn.py
@@ -10,7 +10,14 @@ import numpy as np
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, spmm, torch, train_fullbatch
+from .common import (
+    normalize_device_name,
+    prepare_data_cached,
+    set_torch_seed,
+    spmm,
+    torch,
+    train_fullbatch,
+)
 
 logger = logging.getLogger(__name__)
 
@@ -82,6 +89,7 @@ class GCNMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/gcnii.py b/src/modssc/transductive/methods/gnn/gcnii.py
index 43484c0..341a88d 100644
--- a/src/modssc/transductive/methods/gnn/gcnii.py
+++ b/src/modssc/transductive/methods/gnn/gcnii.py
@@ -11,7 +11,14 @@ import numpy as np
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, spmm, torch, train_fullbatch
+from .common import (
+    normalize_device_name,
+    prepare_data_cached,
+    set_torch_seed,
+    spmm,
+    torch,
+    train_fullbatch,
+)
 
 logger = logging.getLogger(__name__)
 
@@ -104,6 +111,7 @@ class GCNIIMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/grand.py b/src/modssc/transductive/methods/gnn/grand.py
index 8f92109..fb98433 100644
--- a/src/modssc/transductive/methods/gnn/grand.py
+++ b/src/modssc/transductive/methods/gnn/grand.py
@@ -11,7 +11,7 @@ from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
 from .common import TwoLayerMLP as _MLP
-from .common import normalize_device_name, prepare_data_cached, spmm, torch
+from .common import normalize_device_name, prepare_data_cached, set_torch_seed, spmm, torch
 
 logger = logging.getLogger(__name__)
 
@@ -69,6 +69,7 @@ class GRANDMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/graphsage.py b/src/modssc/transductive/methods/gnn/graphsage.py
index 2e1dd5c..41e96b4 100644
--- a/src/modssc/transductive/methods/gnn/graphsage.py
+++ b/src/modssc/transductive/methods/gnn/graphsage.py
@@ -13,6 +13,7 @@ from modssc.transductive.optional import optional_import
 from .common import (
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     spmm,
     torch,
     train_fullbatch,
@@ -84,6 +85,7 @@ class GraphSAGEMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/h_gcn.py b/src/modssc/transductive/methods/gnn/h_gcn.py
index 3abce80..ea872c9 100644
--- a/src/modssc/transductive/methods/gnn/h_gcn.py
+++ b/src/modssc/transductive/methods/gnn/h_gcn.py
@@ -15,6 +15,7 @@ from .common import (
     _as_numpy,
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     torch,
     train_fullbatch,
 )
@@ -293,6 +294,7 @@ class HGCNMethod(TransductiveMethod):
             raise ValueError("weight_embed_dim must be >= 1")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/n_gcn.py b/src/modssc/transductive/methods/gnn/n_gcn.py
index 32bd7e8..fac6e46 100644
--- a/src/modssc/transductive/methods/gnn/n_gcn.py
+++ b/src/modssc/transductive/methods/gnn/n_gcn.py
@@ -15,6 +15,7 @@ from .common import (
     _as_numpy,
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     torch,
     train_fullbatch,
 )
@@ -213,6 +214,7 @@ class NGCNMethod(TransductiveMethod):
             raise ValueError("classifier must be 'fc' or 'attention'")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/planetoid.py b/src/modssc/transductive/methods/gnn/planetoid.py
index 790b5b6..1e02bbf 100644
--- a/src/modssc/transductive/methods/gnn/planetoid.py
+++ b/src/modssc/transductive/methods/gnn/planetoid.py
@@ -17,7 +17,7 @@ from modssc.graph.featurization.node2vec import (
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, torch
+from .common import normalize_device_name, prepare_data_cached, set_torch_seed, torch
 
 logger = logging.getLogger(__name__)
 
@@ -82,6 +82,7 @@ class PlanetoidMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
 
         # Walk generation on CPU
         prep = prepare_data_cached(
diff --git a/src/modssc/transductive/methods/gnn/sgc.py b/src/modssc/transductive/methods/gnn/sgc.py
index b9811f3..09136ce 100644
--- a/src/modssc/transductive/methods/gnn/sgc.py
+++ b/src/modssc/transductive/methods/gnn/sgc.py
@@ -10,7 +10,14 @@ import numpy as np
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, spmm, torch, train_fullbatch
+from .common import (
+    normalize_device_name,
+    prepare_data_cached,
+    set_torch_seed,
+    spmm,
+    torch,
+    train_fullbatch,
+)
 
 logger = logging.getLogger(__name__)
 
@@ -62,6 +69,7 @@ class SGCMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
-- 
2.43.0


From 3f75c6fa9673a9d287f20ed1ad30ccc0c34824d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 25/64] fix: keep the objects a prepared-data cache is keyed on
 alive

---
 src/modssc/transductive/methods/gnn/common.py | 31 +++++++++++++------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/modssc/transductive/methods/gnn/common.py b/src/modssc/transductive/methods/gnn/common.py
index 9f85637..1960088 100644
--- a/src/modssc/transductive/methods/gnn/common.py
+++ b/src/modssc/transductive/methods/gnn/common.py
@@ -260,6 +260,24 @@ def prepare_data(
     )
 
 
+def _prep_cache_objects(data: Any) -> tuple[Any, ...]:
+    """Objects whose identity the prepared data depends on."""
+    graph = getattr(data, "graph", None)
+    masks = getattr(data, "masks", None)
+    get_mask = masks.get if isinstance(masks, dict) else lambda _name: None
+    return (
+        data,
+        getattr(data, "X", None),
+        getattr(data, "y", None),
+        graph,
+        getattr(graph, "edge_index", None),
+        getattr(graph, "edge_weight", None),
+        masks,
+        get_mask("train_mask"),
+        get_mask("val_mask"),
+    )
+
+
 def _prep_cache_key(
     data: Any,
     *,
@@ -268,20 +286,11 @@ def _prep_cache_key(
     norm_mode: NormMode,
     dtype: Any | None,
 ) -> tuple[Any, ...]:
-    graph = getattr(data, "graph", None)
-    edge_index = getattr(graph, "edge_index", None) if graph is not None else None
-    edge_weight = getattr(graph, "edge_weight", None) if graph is not None else None
     device_key = (
         normalize_device_name(device) if isinstance(device, str) or device is None else str(device)
     )
     return (
-        id(data),
-        id(getattr(data, "X", None)),
-        id(getattr(data, "y", None)),
-        id(graph),
-        id(edge_index),
-        id(edge_weight),
-        id(getattr(data, "masks", None)),
+        *(id(obj) for obj in _prep_cache_objects(data)),
         device_key,
         bool(add_self_loops),
         str(norm_mode),
@@ -319,6 +328,8 @@ def prepare_data_cached(
     )
     cache["key"] = key
     cache["prep"] = prep
+    # Keep the keyed objects alive: ids are only unique among live objects.
+    cache["refs"] = _prep_cache_objects(data)
     return prep
 
 
-- 
2.43.0


From 2bc0c918fcea07d9d59ac8e72fd29d9f29ab3346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 26/64] fix: numpy Laplace learning ignores self-loops like the
 torch backend

---
 src/modssc/transductive/methods/classic/laplace_learning.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/modssc/transductive/methods/classic/laplace_learning.py b/src/modssc/transductive/methods/classic/laplace_learning.py
index 5fd93e8..2bbe262 100644
--- a/src/modssc/transductive/methods/classic/laplace_learning.py
+++ b/src/modssc/transductive/methods/classic/laplace_learning.py
@@ -62,8 +62,7 @@ def laplace_learning_numpy(
     np.add.at(W, (dst, src), w)
 
     deg = W.sum(axis=1)
-    L = -W
-    np.fill_diagonal(L, deg)
+    L = np.diag(deg) - W
 
     labeled_idx = np.flatnonzero(labeled_mask)
     unlabeled_idx = np.flatnonzero(~labeled_mask)
-- 
2.43.0


From 233ec0d0f5a7ecfc6400642300ebd072399b5436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 27/64] fix: torch Poisson learning accepts unweighted graphs

---
 src/modssc/transductive/methods/pde/poisson_learning.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modssc/transductive/methods/pde/poisson_learning.py b/src/modssc/transductive/methods/pde/poisson_learning.py
index f429911..d24cc54 100644
--- a/src/modssc/transductive/methods/pde/poisson_learning.py
+++ b/src/modssc/transductive/methods/pde/poisson_learning.py
@@ -174,7 +174,12 @@ def poisson_learning_torch(
     if edge_index_t.ndim != 2 or edge_index_t.shape[0] != 2:
         raise ValueError(f"edge_index must have shape (2, E), got {tuple(edge_index_t.shape)}")
 
-    edge_weight_t = torch.as_tensor(edge_weight, dtype=torch.float32, device=device)
+    if edge_weight is None:
+        edge_weight_t = torch.ones(
+            (int(edge_index_t.shape[1]),), dtype=torch.float32, device=device
+        )
+    else:
+        edge_weight_t = torch.as_tensor(edge_weight, dtype=torch.float32, device=device)
     labeled_mask_t = torch.as_tensor(labeled_mask, dtype=torch.bool, device=device)
 
     n_nodes_i = int(n_nodes)
-- 
2.43.0


From 99cc5e75921f25b726201855da86ac2fd3200557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:20 +0000
Subject: [PATCH 28/64] fix: warm-start the p-Laplace inner solver so weakly
 tied nodes converge

---
 .../transductive/methods/pde/p_laplace_learning.py  | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/modssc/transductive/methods/pde/p_laplace_learning.py b/src/modssc/transductive/methods/pde/p_laplace_learning.py
index cfde935..7b64dae 100644
--- a/src/modssc/transductive/methods/pde/p_laplace_learning.py
+++ b/src/modssc/transductive/methods/pde/p_laplace_learning.py
@@ -147,7 +147,11 @@ def p_laplace_learning_numpy(
 
     # p=2 initialization (L(u) independent of u)
     def solve_linear(
-        *, a_weight: np.ndarray, b_weight: np.ndarray, g: np.ndarray
+        *,
+        a_weight: np.ndarray,
+        b_weight: np.ndarray,
+        g: np.ndarray,
+        x0: np.ndarray | None = None,
     ) -> tuple[np.ndarray, int, float]:
         D = np.zeros((unlabeled_idx.size,), dtype=np.float32)
         if a_weight.size:
@@ -175,7 +179,11 @@ def p_laplace_learning_numpy(
         rhs = rhs - f
 
         cg = cg_solve_numpy(
-            matvec=matvec, b=rhs, tol=float(spec.cg_tol), max_iter=int(spec.cg_max_iter)
+            matvec=matvec,
+            b=rhs,
+            x0=x0,
+            tol=float(spec.cg_tol),
+            max_iter=int(spec.cg_max_iter),
         )
         return cg.x.astype(np.float32, copy=False), int(cg.n_iter), float(cg.residual_norm)
 
@@ -198,6 +206,7 @@ def p_laplace_learning_numpy(
                     a_weight=a_weight.astype(np.float32, copy=False),
                     b_weight=b_weight.astype(np.float32, copy=False),
                     g=g,
+                    x0=u,
                 )
                 u_new = ((p - 2.0) / (p - 1.0)) * u + (1.0 / (p - 1.0)) * v
                 residual = float(np.max(np.abs(u_new - u)))
-- 
2.43.0


From b54529f45440baa54501e8dcd8aa0924dead0089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 29/64] fix: inductive predict_proba turns decision-function
 scores into probabilities with a softmax

---
 src/modssc/inductive/methods/co_training.py   |  5 +++-
 .../methods/helpers/classifier_bridge.py      | 27 ++++++++++++++++++-
 src/modssc/inductive/methods/pseudo_label.py  | 10 ++-----
 src/modssc/inductive/methods/s4vm.py          | 11 ++------
 src/modssc/inductive/methods/self_training.py | 10 ++-----
 src/modssc/inductive/methods/setred.py        | 10 ++-----
 src/modssc/inductive/methods/supervised.py    | 11 ++------
 src/modssc/inductive/methods/tri_training.py  |  6 ++++-
 8 files changed, 45 insertions(+), 45 deletions(-)

diff --git a/src/modssc/inductive/methods/co_training.py b/src/modssc/inductive/methods/co_training.py
index d954211..dc0a7ec 100644
--- a/src/modssc/inductive/methods/co_training.py
+++ b/src/modssc/inductive/methods/co_training.py
@@ -20,6 +20,7 @@ from modssc.inductive.methods.utils import (
     ensure_cpu_device,
     flatten_if_numpy,
     predict_scores,
+    scores_to_proba,
     select_top_per_class,
     select_top_per_class_torch,
     unwrap_torch_x,
@@ -436,7 +437,9 @@ class CoTrainingMethod(InductiveMethod):
         c2 = getattr(self._clf2, "classes_", None)
         if c1 is not None and c2 is not None and not np.array_equal(c1, c2):
             raise InductiveValidationError("CoTraining classifiers disagree on class labels.")
-        return (s1 + s2) / 2.0
+        p1 = scores_to_proba(self._clf1, s1, backend=backend)
+        p2 = scores_to_proba(self._clf2, s2, backend=backend)
+        return (p1 + p2) / 2.0
 
     def predict_proba(self, data: Any) -> np.ndarray:
         if data is None or data.views is None:
diff --git a/src/modssc/inductive/methods/helpers/classifier_bridge.py b/src/modssc/inductive/methods/helpers/classifier_bridge.py
index e4fcea4..f730b98 100644
--- a/src/modssc/inductive/methods/helpers/classifier_bridge.py
+++ b/src/modssc/inductive/methods/helpers/classifier_bridge.py
@@ -135,7 +135,9 @@ def _predict_scores_numpy(model: Any, X: np.ndarray) -> np.ndarray:
         raise InductiveValidationError(
             "Numpy backend requires numpy.ndarray inputs. Use preprocess core.to_numpy."
         )
-    if hasattr(model, "predict_scores"):
+    if getattr(model, "supports_proba", None) is True:
+        scores = model.predict_proba(X)
+    elif hasattr(model, "predict_scores"):
         scores = model.predict_scores(X)
     elif hasattr(model, "predict_proba"):
         scores = model.predict_proba(X)
@@ -189,6 +191,29 @@ def predict_scores(model: Any, X: Any, *, backend: str):
     raise InductiveValidationError(f"Unknown backend: {backend!r}")
 
 
+def scores_to_proba(model: Any, scores: Any, *, backend: str):
+    """Turn the scores of a base classifier into class probabilities.
+
+    Classifiers without probabilities score with a decision function: its values may be
+    negative and their sum means nothing, so they go through a softmax, which keeps the
+    ranking of the classes. Other scores are divided by their row sum.
+    """
+    has_proba = getattr(model, "supports_proba", None) is not False
+    if backend == "numpy":
+        if not has_proba:
+            exp = np.exp(scores - scores.max(axis=1, keepdims=True))
+            return (exp / exp.sum(axis=1, keepdims=True)).astype(np.float32, copy=False)
+        row_sum = scores.sum(axis=1, keepdims=True)
+        row_sum[row_sum == 0.0] = 1.0
+        return (scores / row_sum).astype(np.float32, copy=False)
+    torch = _torch()
+    if not has_proba:
+        return torch.softmax(scores, dim=1)
+    row_sum = scores.sum(dim=1, keepdim=True)
+    row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
+    return scores / row_sum
+
+
 def select_confident(
     scores: np.ndarray,
     *,
diff --git a/src/modssc/inductive/methods/pseudo_label.py b/src/modssc/inductive/methods/pseudo_label.py
index dac483a..13b82e7 100644
--- a/src/modssc/inductive/methods/pseudo_label.py
+++ b/src/modssc/inductive/methods/pseudo_label.py
@@ -26,6 +26,7 @@ from modssc.inductive.methods.utils import (
     ensure_numpy_data,
     ensure_torch_data,
     predict_scores,
+    scores_to_proba,
     select_confident,
     select_confident_torch,
 )
@@ -210,14 +211,7 @@ class PseudoLabelMethod(InductiveMethod):
         if self._backend is not None and backend != self._backend:
             raise InductiveValidationError("predict_proba input backend mismatch.")
         scores = predict_scores(self._clf, X, backend=backend)
-        if backend == "numpy":
-            row_sum = scores.sum(axis=1, keepdims=True)
-            row_sum[row_sum == 0.0] = 1.0
-            return (scores / row_sum).astype(np.float32, copy=False)
-        torch = optional_import("torch", extra="inductive-torch")
-        row_sum = scores.sum(dim=1, keepdim=True)
-        row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-        return scores / row_sum
+        return scores_to_proba(self._clf, scores, backend=backend)
 
     def predict(self, X: Any) -> np.ndarray:
         if self._clf is None:
diff --git a/src/modssc/inductive/methods/s4vm.py b/src/modssc/inductive/methods/s4vm.py
index a22bb61..72c268d 100644
--- a/src/modssc/inductive/methods/s4vm.py
+++ b/src/modssc/inductive/methods/s4vm.py
@@ -23,6 +23,7 @@ from modssc.inductive.methods.utils import (
     ensure_torch_data,
     flatten_if_numpy,
     predict_scores,
+    scores_to_proba,
 )
 from modssc.inductive.optional import optional_import
 from modssc.inductive.types import DeviceSpec
@@ -193,15 +194,7 @@ class S4VMMethod(InductiveMethod):
             X = flatten_if_numpy(X)
 
         scores = predict_scores(self._clf, X, backend=backend)
-        if backend == "numpy":
-            row_sum = scores.sum(axis=1, keepdims=True)
-            if np.any(row_sum == 0.0):
-                row_sum[row_sum == 0.0] = 1.0
-            return (scores / row_sum).astype(np.float32, copy=False)
-        torch = optional_import("torch", extra="inductive-torch")
-        row_sum = scores.sum(dim=1, keepdim=True)
-        row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-        return scores / row_sum
+        return scores_to_proba(self._clf, scores, backend=backend)
 
     def predict(self, X: Any) -> np.ndarray:
         if self._clf is None:
diff --git a/src/modssc/inductive/methods/self_training.py b/src/modssc/inductive/methods/self_training.py
index 74b98c4..3a4d119 100644
--- a/src/modssc/inductive/methods/self_training.py
+++ b/src/modssc/inductive/methods/self_training.py
@@ -27,6 +27,7 @@ from modssc.inductive.methods.utils import (
     ensure_numpy_data,
     ensure_torch_data,
     predict_scores,
+    scores_to_proba,
 )
 from modssc.inductive.optional import optional_import
 from modssc.inductive.types import DeviceSpec
@@ -473,14 +474,7 @@ class SelfTrainingMethod(InductiveMethod):
         if self._backend is not None and backend != self._backend:
             raise InductiveValidationError("predict_proba input backend mismatch.")
         scores = predict_scores(self._clf, X, backend=backend)
-        if backend == "numpy":
-            row_sum = scores.sum(axis=1, keepdims=True)
-            row_sum[row_sum == 0.0] = 1.0
-            return (scores / row_sum).astype(np.float32, copy=False)
-        torch = optional_import("torch", extra="inductive-torch")
-        row_sum = scores.sum(dim=1, keepdim=True)
-        row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-        return scores / row_sum
+        return scores_to_proba(self._clf, scores, backend=backend)
 
     def predict(self, X: Any) -> np.ndarray:
         if self._clf is None:
diff --git a/src/modssc/inductive/methods/setred.py b/src/modssc/inductive/methods/setred.py
index b165b46..4b9567a 100644
--- a/src/modssc/inductive/methods/setred.py
+++ b/src/modssc/inductive/methods/setred.py
@@ -27,6 +27,7 @@ from modssc.inductive.methods.utils import (
     ensure_numpy_data,
     ensure_torch_data,
     predict_scores,
+    scores_to_proba,
     unwrap_torch_x,
 )
 from modssc.inductive.optional import optional_import
@@ -505,14 +506,7 @@ class SetredMethod(InductiveMethod):
         if self._backend is not None and backend != self._backend:
             raise InductiveValidationError("predict_proba input backend mismatch.")
         scores = predict_scores(self._clf, X, backend=backend)
-        if backend == "numpy":
-            row_sum = scores.sum(axis=1, keepdims=True)
-            row_sum[row_sum == 0.0] = 1.0
-            return (scores / row_sum).astype(np.float32, copy=False)
-        torch = optional_import("torch", extra="inductive-torch")
-        row_sum = scores.sum(dim=1, keepdim=True)
-        row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-        return scores / row_sum
+        return scores_to_proba(self._clf, scores, backend=backend)
 
     def predict(self, X: Any) -> np.ndarray:
         if self._clf is None:
diff --git a/src/modssc/inductive/methods/supervised.py b/src/modssc/inductive/methods/supervised.py
index 82c01f1..26d71b9 100644
--- a/src/modssc/inductive/methods/supervised.py
+++ b/src/modssc/inductive/methods/supervised.py
@@ -21,8 +21,8 @@ from modssc.inductive.methods.utils import (
     ensure_numpy_data,
     ensure_torch_data,
     predict_scores,
+    scores_to_proba,
 )
-from modssc.inductive.optional import optional_import
 from modssc.inductive.types import DeviceSpec
 
 logger = logging.getLogger(__name__)
@@ -100,14 +100,7 @@ class SupervisedMethod(InductiveMethod):
         if self._backend is not None and backend != self._backend:
             raise InductiveValidationError("predict_proba input backend mismatch.")
         scores = predict_scores(self._clf, X, backend=backend)
-        if backend == "numpy":
-            row_sum = scores.sum(axis=1, keepdims=True)
-            row_sum[row_sum == 0.0] = 1.0
-            return (scores / row_sum).astype(np.float32, copy=False)
-        torch = optional_import("torch", extra="inductive-torch")
-        row_sum = scores.sum(dim=1, keepdim=True)
-        row_sum = torch.where(row_sum == 0, torch.ones_like(row_sum), row_sum)
-        return scores / row_sum
+        return scores_to_proba(self._clf, scores, backend=backend)
 
     def predict(self, X: Any) -> np.ndarray:
         if self._clf is None:
diff --git a/src/modssc/inductive/methods/tri_training.py b/src/modssc/inductive/methods/tri_training.py
index 4287bfd..24b0fb8 100644
--- a/src/modssc/inductive/methods/tri_training.py
+++ b/src/modssc/inductive/methods/tri_training.py
@@ -27,6 +27,7 @@ from modssc.inductive.methods.utils import (
     ensure_torch_data,
     flatten_if_numpy,
     predict_scores,
+    scores_to_proba,
 )
 from modssc.inductive.optional import optional_import
 from modssc.inductive.types import DeviceSpec
@@ -286,7 +287,10 @@ class TriTrainingMethod(InductiveMethod):
         if backend == "numpy":
             X = flatten_if_numpy(X)
 
-        scores_list = [predict_scores(clf, X, backend=backend) for clf in self._clfs]
+        scores_list = [
+            scores_to_proba(clf, predict_scores(clf, X, backend=backend), backend=backend)
+            for clf in self._clfs
+        ]
 
         # Robustly align scores if shapes differ
         shapes = [s.shape[1] for s in scores_list]
-- 
2.43.0


From 7722cdfc3df17cbcd7a5164fd5a0cb90027d71d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 30/64] fix: tri-training pseudo-labels and predictions carry
 class labels, not score columns

---
 src/modssc/inductive/methods/tri_training.py | 40 ++++++++++++++------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/modssc/inductive/methods/tri_training.py b/src/modssc/inductive/methods/tri_training.py
index 24b0fb8..deac22f 100644
--- a/src/modssc/inductive/methods/tri_training.py
+++ b/src/modssc/inductive/methods/tri_training.py
@@ -43,6 +43,20 @@ class TriTrainingSpec(BaseClassifierSpec):
     bootstrap_ratio: float = 1.0
 
 
+def _columns_to_labels_numpy(clf: Any, columns: np.ndarray) -> np.ndarray:
+    """Class labels of the score columns of a classifier (the columns if it names no classes)."""
+    classes = getattr(clf, "classes_", None)
+    return columns if classes is None else np.asarray(classes)[columns]
+
+
+def _columns_to_labels_torch(clf: Any, columns: Any) -> Any:
+    torch = optional_import("torch", extra="inductive-torch")
+    classes_t = getattr(clf, "classes_t_", None)
+    if not isinstance(classes_t, torch.Tensor):
+        return columns
+    return classes_t.to(columns.device)[columns]
+
+
 class TriTrainingMethod(InductiveMethod):
     """Tri-training with three classifiers (CPU/GPU)."""
 
@@ -124,8 +138,8 @@ class TriTrainingMethod(InductiveMethod):
                     j, k = [x for x in range(3) if x != i]
                     scores_j = predict_scores(clfs[j], X_u, backend=backend)
                     scores_k = predict_scores(clfs[k], X_u, backend=backend)
-                    pred_j = scores_j.argmax(axis=1)
-                    pred_k = scores_k.argmax(axis=1)
+                    pred_j = _columns_to_labels_numpy(clfs[j], scores_j.argmax(axis=1))
+                    pred_k = _columns_to_labels_numpy(clfs[k], scores_k.argmax(axis=1))
                     agree = pred_j == pred_k
                     if not np.any(agree):
                         continue
@@ -221,8 +235,8 @@ class TriTrainingMethod(InductiveMethod):
                 j, k = [x for x in range(3) if x != i]
                 scores_j = predict_scores(clfs[j], X_u, backend=backend)
                 scores_k = predict_scores(clfs[k], X_u, backend=backend)
-                pred_j = scores_j.argmax(dim=1)
-                pred_k = scores_k.argmax(dim=1)
+                pred_j = _columns_to_labels_torch(clfs[j], scores_j.argmax(dim=1))
+                pred_k = _columns_to_labels_torch(clfs[k], scores_k.argmax(dim=1))
                 agree = pred_j == pred_k
                 if not bool(agree.any()):
                     continue
@@ -395,14 +409,16 @@ class TriTrainingMethod(InductiveMethod):
     def predict(self, X: Any) -> np.ndarray:
         proba = self.predict_proba(X)
         backend = detect_backend(X)
+        # predict_proba has one column per class known to any of the classifiers
         if backend == "numpy":
             idx = proba.argmax(axis=1)
-            classes = getattr(self._clfs[0], "classes_", None)
-            if classes is None:
-                return idx
-            return np.asarray(classes)[idx]
+            classes = [getattr(clf, "classes_", None) for clf in self._clfs]
+            if any(c is None for c in classes):
+                return idx if classes[0] is None else np.asarray(classes[0])[idx]
+            return np.unique(np.concatenate([np.asarray(c) for c in classes]))[idx]
         idx = proba.argmax(dim=1)
-        classes_t = getattr(self._clfs[0], "classes_t_", None)
-        if classes_t is None:
-            return idx
-        return classes_t[idx]
+        classes_t = [getattr(clf, "classes_t_", None) for clf in self._clfs]
+        if any(c is None for c in classes_t):
+            return idx if classes_t[0] is None else classes_t[0][idx]
+        torch = optional_import("torch", extra="inductive-torch")
+        return torch.unique(torch.cat(classes_t), sorted=True)[idx]
-- 
2.43.0


From 095d04767dbdfce9fbac14fb865923cfab651c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:13 +0000
Subject: [PATCH 31/64] fix: seed torch before the logistic regression weights
 are drawn

---
 src/modssc/supervised/backends/torch/logreg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modssc/supervised/backends/torch/logreg.py b/src/modssc/supervised/backends/torch/logreg.py
index 988b101..ff60886 100644
--- a/src/modssc/supervised/backends/torch/logreg.py
+++ b/src/modssc/supervised/backends/torch/logreg.py
@@ -87,12 +87,12 @@ class TorchLogRegClassifier(TorchScoresClassifierBase):
         n_features = int(X.shape[1])
         n_classes = int(classes.numel())
 
+        torch.manual_seed(int(self.seed or 0))
         model = torch.nn.Linear(n_features, n_classes).to(X.device)
         optimizer = torch.optim.AdamW(
             model.parameters(), lr=float(self.lr), weight_decay=float(self.weight_decay)
         )
 
-        torch.manual_seed(int(self.seed or 0))
         model.train()
         n = int(X.shape[0])
         for _epoch in range(int(self.max_epochs)):
-- 
2.43.0


From a5caecabdec7a2c3b35de4c5977b3cad0a34d46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:01 +0000
Subject: [PATCH 32/64] fix: edge weights follow their edges when graph inputs
 are sliced or joined

---
 src/modssc/inductive/methods/co_training.py    | 11 ++++++++++-
 .../inductive/methods/helpers/torch_support.py | 18 +++++++++++++-----
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/modssc/inductive/methods/co_training.py b/src/modssc/inductive/methods/co_training.py
index dc0a7ec..1414caa 100644
--- a/src/modssc/inductive/methods/co_training.py
+++ b/src/modssc/inductive/methods/co_training.py
@@ -183,8 +183,15 @@ def _index_torch(obj: Any, idx: Any) -> Any:
                 if isinstance(subset, slice):
                     subset = torch.arange(num_nodes, device=obj["x"].device)[subset]
 
-                new_ei, _ = subgraph(subset, edge_index, relabel_nodes=True, num_nodes=num_nodes)
+                weights = {}
+                if obj.get("edge_weight") is not None:
+                    weights["edge_attr"] = obj["edge_weight"]
+                new_ei, new_ew = subgraph(
+                    subset, edge_index, relabel_nodes=True, num_nodes=num_nodes, **weights
+                )
                 res["edge_index"] = new_ei
+                if weights:
+                    res["edge_weight"] = new_ew
 
         return res
     return obj[idx]
@@ -204,6 +211,8 @@ def _cat_torch(objs: list[Any], dim: int = 0) -> Any:
                 edge_indices.append(ei + offset)
                 offset += o["x"].shape[0]
             res["edge_index"] = torch.cat(edge_indices, dim=1)
+            if all(o.get("edge_weight") is not None for o in objs):
+                res["edge_weight"] = torch.cat([o["edge_weight"] for o in objs], dim=0)
 
         return res
     return torch.cat(objs, dim=dim)
diff --git a/src/modssc/inductive/methods/helpers/torch_support.py b/src/modssc/inductive/methods/helpers/torch_support.py
index f77db81..d4cd5f9 100644
--- a/src/modssc/inductive/methods/helpers/torch_support.py
+++ b/src/modssc/inductive/methods/helpers/torch_support.py
@@ -255,6 +255,7 @@ def concat_data(items: list[Any]) -> Any:
     out: dict[str, Any] = {"x": x_cat}
 
     if all(isinstance(g, dict) and "edge_index" in g for g in graphs):
+        weighted = any(g.get("edge_weight") is not None for g in graphs)
         edge_indices = []
         edge_weights = []
         offset = 0
@@ -264,8 +265,10 @@ def concat_data(items: list[Any]) -> Any:
                 ei = torch.as_tensor(ei, device=x_cat.device, dtype=torch.long)
             ei = ei + offset
             edge_indices.append(ei)
-            if "edge_weight" in g:
-                ew = g["edge_weight"]
+            if weighted:
+                ew = g.get("edge_weight")
+                if ew is None:
+                    ew = torch.ones(int(ei.shape[1]), device=x_cat.device)
                 if not isinstance(ew, torch.Tensor):
                     ew = torch.as_tensor(ew, device=x_cat.device)
                 edge_weights.append(ew)
@@ -362,16 +365,21 @@ def slice_data(X: Any, idx: Any) -> Any:
                     )
                     subgraph_idx = torch.arange(start, stop, step, device=device)
 
+                weights = {}
+                if X.get("edge_weight") is not None:
+                    weights["edge_attr"] = X["edge_weight"]
                 # relabel_nodes=True ensures indices map to 0..len(idx)
-                edge_index, _ = subgraph(
-                    subgraph_idx, X["edge_index"], relabel_nodes=True, num_nodes=n
+                edge_index, edge_weight = subgraph(
+                    subgraph_idx, X["edge_index"], relabel_nodes=True, num_nodes=n, **weights
                 )
                 batch_data["edge_index"] = edge_index
+                if weights:
+                    batch_data["edge_weight"] = edge_weight
             except ImportError:
                 pass
 
         for k, v in X.items():
-            if k in ("x", "edge_index"):
+            if k in ("x", "edge_index") or k in batch_data:
                 continue
             if isinstance(v, torch.Tensor) and v.shape[0] == n:
                 batch_data[k] = v[idx]
-- 
2.43.0


From 5bcf77d6cff6ba4ef45e29cf7835c6269e038c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 33/64] fix: accept n_jobs in the naive Bayes classifiers like
 every other sklearn backend

---
 .../backends/sklearn/naive_bayes.py           | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/modssc/supervised/backends/sklearn/naive_bayes.py b/src/modssc/supervised/backends/sklearn/naive_bayes.py
index 2f38eee..3a62714 100644
--- a/src/modssc/supervised/backends/sklearn/naive_bayes.py
+++ b/src/modssc/supervised/backends/sklearn/naive_bayes.py
@@ -16,8 +16,14 @@ class SklearnGaussianNBClassifier(SklearnProbaClassifier):
     classifier_id = "gaussian_nb"
     backend = "sklearn"
 
-    def __init__(self, *, var_smoothing: float = 1e-9, seed: int | None = 0):
-        super().__init__(seed=seed, n_jobs=None)
+    def __init__(
+        self,
+        *,
+        var_smoothing: float = 1e-9,
+        seed: int | None = 0,
+        n_jobs: int | None = None,
+    ):
+        super().__init__(seed=seed, n_jobs=n_jobs)
         self.var_smoothing = float(var_smoothing)
         self._model: Any | None = None
 
@@ -50,8 +56,15 @@ class SklearnMultinomialNBClassifier(SklearnProbaClassifier):
     classifier_id = "multinomial_nb"
     backend = "sklearn"
 
-    def __init__(self, *, alpha: float = 1.0, fit_prior: bool = True, seed: int | None = 0):
-        super().__init__(seed=seed, n_jobs=None)
+    def __init__(
+        self,
+        *,
+        alpha: float = 1.0,
+        fit_prior: bool = True,
+        seed: int | None = 0,
+        n_jobs: int | None = None,
+    ):
+        super().__init__(seed=seed, n_jobs=n_jobs)
         self.alpha = float(alpha)
         self.fit_prior = bool(fit_prior)
         self._model: Any | None = None
@@ -92,8 +105,9 @@ class SklearnBernoulliNBClassifier(SklearnProbaClassifier):
         binarize: float | None = 0.0,
         fit_prior: bool = True,
         seed: int | None = 0,
+        n_jobs: int | None = None,
     ):
-        super().__init__(seed=seed, n_jobs=None)
+        super().__init__(seed=seed, n_jobs=n_jobs)
         self.alpha = float(alpha)
         self.binarize = binarize if binarize is None else float(binarize)
         self.fit_prior = bool(fit_prior)
-- 
2.43.0


From 4bde2a1ff621df2a56f3dd6d59c979773bea8191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:34 +0000
Subject: [PATCH 34/64] fix: refitting a torch CNN starts from its own
 input_shape, not the previous fit's

---
 src/modssc/supervised/backends/torch/audio_cnn.py        | 2 ++
 src/modssc/supervised/backends/torch/image_cnn.py        | 2 ++
 src/modssc/supervised/backends/torch/image_pretrained.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/modssc/supervised/backends/torch/audio_cnn.py b/src/modssc/supervised/backends/torch/audio_cnn.py
index 4bc243d..7ab63de 100644
--- a/src/modssc/supervised/backends/torch/audio_cnn.py
+++ b/src/modssc/supervised/backends/torch/audio_cnn.py
@@ -134,6 +134,8 @@ class TorchAudioCNNClassifier(TorchScoresClassifierBase):
         if not isinstance(X, torch.Tensor):
             raise SupervisedValidationError("TorchAudioCNNClassifier requires torch.Tensor X.")
 
+        if allow_infer:
+            self._input_shape = None
         if X.ndim == 3:
             shape = (int(X.shape[1]), int(X.shape[2]))
             X3 = X
diff --git a/src/modssc/supervised/backends/torch/image_cnn.py b/src/modssc/supervised/backends/torch/image_cnn.py
index fd364ca..75cbbec 100644
--- a/src/modssc/supervised/backends/torch/image_cnn.py
+++ b/src/modssc/supervised/backends/torch/image_cnn.py
@@ -133,6 +133,8 @@ class TorchImageCNNClassifier(TorchScoresClassifierBase):
     def _prepare_X(self, X: Any, torch, *, allow_infer: bool) -> Any:
         if not isinstance(X, torch.Tensor):
             raise SupervisedValidationError("TorchImageCNNClassifier requires torch.Tensor X.")
+        if allow_infer:
+            self._input_shape = None
         if X.ndim == 4:
             shape = (int(X.shape[1]), int(X.shape[2]), int(X.shape[3]))
             X4 = X
diff --git a/src/modssc/supervised/backends/torch/image_pretrained.py b/src/modssc/supervised/backends/torch/image_pretrained.py
index a4f2e09..d70a2bf 100644
--- a/src/modssc/supervised/backends/torch/image_pretrained.py
+++ b/src/modssc/supervised/backends/torch/image_pretrained.py
@@ -197,6 +197,8 @@ class TorchImagePretrainedClassifier(TorchScoresClassifierBase):
             raise SupervisedValidationError(
                 "TorchImagePretrainedClassifier requires torch.Tensor X."
             )
+        if allow_infer:
+            self._input_shape = None
         if X.ndim == 4:
             if self.input_layout == "channels_last":
                 X4 = X.permute(0, 3, 1, 2)
-- 
2.43.0


From 1913329deeb26f532b6018da53630a91e47565d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 35/64] fix: SETRED's kNN graph no longer links a duplicated
 point to itself

---
 src/modssc/inductive/methods/setred.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modssc/inductive/methods/setred.py b/src/modssc/inductive/methods/setred.py
index 4b9567a..32fdedd 100644
--- a/src/modssc/inductive/methods/setred.py
+++ b/src/modssc/inductive/methods/setred.py
@@ -71,7 +71,7 @@ def _build_knn_graph_numpy(X: np.ndarray, *, k: int) -> tuple[list[np.ndarray],
     neighbors: list[set[int]] = [set() for _ in range(n)]
     for i in range(n):
         order = np.argsort(dist[i])
-        for j in order[1 : k + 1]:
+        for j in order[order != i][:k]:
             neighbors[i].add(int(j))
             neighbors[int(j)].add(int(i))
     return [np.asarray(sorted(nbrs), dtype=np.int64) for nbrs in neighbors], dist
-- 
2.43.0


From 15d572ea6718dcf49899d33673fe54b144fa42c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 36/64] fix: MixMatch draws its mixup coefficients from the fit
 seed

---
 src/modssc/inductive/methods/mixmatch.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modssc/inductive/methods/mixmatch.py b/src/modssc/inductive/methods/mixmatch.py
index d7f7b44..c3e622f 100644
--- a/src/modssc/inductive/methods/mixmatch.py
+++ b/src/modssc/inductive/methods/mixmatch.py
@@ -63,8 +63,12 @@ def _mixup(
     if alpha <= 0:
         lam = torch.ones((batch,), device=base.device, dtype=base.dtype)
     else:
+        # torch distributions only sample from the global generator: seed it from ours.
+        draw_seed = int(torch.randint(0, 2**31 - 1, (1,), generator=generator).item())
         dist = torch.distributions.Beta(float(alpha), float(alpha))
-        lam = dist.sample((batch,)).to(device=base.device, dtype=base.dtype)
+        with torch.random.fork_rng(devices=[]):
+            torch.default_generator.manual_seed(draw_seed)
+            lam = dist.sample((batch,)).to(device=base.device, dtype=base.dtype)
         lam = torch.max(lam, 1.0 - lam)
 
     perm = torch.randperm(batch, generator=generator, device="cpu")
-- 
2.43.0


From 9830ef71b0d4b5a62503553f3b04ac9d52c7859c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 37/64] fix: temporal ensembling corrects the bias for the
 epochs already averaged

---
 src/modssc/inductive/methods/temporal_ensembling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modssc/inductive/methods/temporal_ensembling.py b/src/modssc/inductive/methods/temporal_ensembling.py
index 4a8733e..9f0ffe5 100644
--- a/src/modssc/inductive/methods/temporal_ensembling.py
+++ b/src/modssc/inductive/methods/temporal_ensembling.py
@@ -160,7 +160,7 @@ class TemporalEnsemblingMethod(TorchBundlePredictMixin, InductiveMethod):
         for epoch in range(int(self.spec.max_epochs)):
             if ensemble_predictions is not None:
                 epoch_predictions = torch.zeros_like(ensemble_predictions)
-                bias = 1.0 - float(self.spec.alpha) ** float(epoch + 1)
+                bias = 1.0 - float(self.spec.alpha) ** float(epoch)
                 bias = max(bias, 1e-12)
                 targets = ensemble_predictions / bias
             else:
@@ -217,7 +217,7 @@ class TemporalEnsemblingMethod(TorchBundlePredictMixin, InductiveMethod):
                         dtype=prob_u.dtype,
                     )
                     epoch_predictions = torch.zeros_like(ensemble_predictions)
-                    bias = 1.0 - float(self.spec.alpha) ** float(epoch + 1)
+                    bias = 1.0 - float(self.spec.alpha) ** float(epoch)
                     bias = max(bias, 1e-12)
                     targets = ensemble_predictions / bias
 
-- 
2.43.0


From 372ef6c843b61d40ef1ed8b66d81dfc574938495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 38/64] fix: refitting AdaMatch, SoftMatch, FreeMatch or
 FlexMatch starts from fresh statistics

---
 src/modssc/inductive/methods/adamatch.py   | 3 +++
 src/modssc/inductive/methods/flexmatch.py  | 3 +++
 src/modssc/inductive/methods/free_match.py | 4 ++++
 src/modssc/inductive/methods/softmatch.py  | 5 +++++
 4 files changed, 15 insertions(+)

diff --git a/src/modssc/inductive/methods/adamatch.py b/src/modssc/inductive/methods/adamatch.py
index a1f42d2..69a2bca 100644
--- a/src/modssc/inductive/methods/adamatch.py
+++ b/src/modssc/inductive/methods/adamatch.py
@@ -218,6 +218,9 @@ class AdaMatchMethod(TorchBundlePredictMixin, InductiveMethod):
                         out[k] = v
             return out
 
+        self._p_model = None
+        self._p_target = None
+
         model.train()
         for epoch in range(int(self.spec.max_epochs)):
             iter_l = cycle_batches(
diff --git a/src/modssc/inductive/methods/flexmatch.py b/src/modssc/inductive/methods/flexmatch.py
index 8cf3316..2dad361 100644
--- a/src/modssc/inductive/methods/flexmatch.py
+++ b/src/modssc/inductive/methods/flexmatch.py
@@ -236,6 +236,9 @@ class FlexMatchMethod(TorchBundlePredictMixin, InductiveMethod):
         gen_l = torch.Generator().manual_seed(int(seed))
         gen_u = torch.Generator().manual_seed(int(seed) + 1)
 
+        self._selected_label = None
+        self._classwise_acc = None
+
         model.train()
         for epoch in range(int(self.spec.max_epochs)):
             iter_l = cycle_batches(
diff --git a/src/modssc/inductive/methods/free_match.py b/src/modssc/inductive/methods/free_match.py
index e5b137e..e90383f 100644
--- a/src/modssc/inductive/methods/free_match.py
+++ b/src/modssc/inductive/methods/free_match.py
@@ -218,6 +218,10 @@ class FreeMatchMethod(TorchBundlePredictMixin, InductiveMethod):
         gen_l = torch.Generator().manual_seed(int(seed))
         gen_u = torch.Generator().manual_seed(int(seed) + 1)
 
+        self._p_model = None
+        self._label_hist = None
+        self._time_p = None
+
         model.train()
         for epoch in range(int(self.spec.max_epochs)):
             iter_l = cycle_batches(
diff --git a/src/modssc/inductive/methods/softmatch.py b/src/modssc/inductive/methods/softmatch.py
index 5b4e2c7..dd28cf6 100644
--- a/src/modssc/inductive/methods/softmatch.py
+++ b/src/modssc/inductive/methods/softmatch.py
@@ -226,6 +226,11 @@ class SoftMatchMethod(TorchBundlePredictMixin, InductiveMethod):
         gen_l = torch.Generator().manual_seed(int(seed))
         gen_u = torch.Generator().manual_seed(int(seed) + 1)
 
+        self._p_model = None
+        self._p_target = None
+        self._prob_max_mu_t = None
+        self._prob_max_var_t = None
+
         model.train()
         for epoch in range(int(self.spec.max_epochs)):
             iter_l = cycle_batches(
-- 
2.43.0


From 76b2574697b9f97160e989542483bd374e552e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:46 +0000
Subject: [PATCH 39/64] fix: running class statistics no longer hold on to a
 finished step's graph

---
 src/modssc/inductive/methods/adamatch.py   | 2 +-
 src/modssc/inductive/methods/comatch.py    | 6 +++---
 src/modssc/inductive/methods/free_match.py | 2 +-
 src/modssc/inductive/methods/softmatch.py  | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/modssc/inductive/methods/adamatch.py b/src/modssc/inductive/methods/adamatch.py
index 69a2bca..fa78ccd 100644
--- a/src/modssc/inductive/methods/adamatch.py
+++ b/src/modssc/inductive/methods/adamatch.py
@@ -79,7 +79,7 @@ class AdaMatchMethod(TorchBundlePredictMixin, InductiveMethod):
                 device=probs_u.device,
             )
         assert self._p_model is not None and self._p_target is not None
-        mean_u = probs_u.mean(dim=0)
+        mean_u = probs_u.detach().mean(dim=0)
         mean_l = probs_l.mean(dim=0)
         momentum = float(self.spec.ema_p)
         self._p_model = momentum * self._p_model + (1.0 - momentum) * mean_u
diff --git a/src/modssc/inductive/methods/comatch.py b/src/modssc/inductive/methods/comatch.py
index 0b3ab60..81a3fa8 100644
--- a/src/modssc/inductive/methods/comatch.py
+++ b/src/modssc/inductive/methods/comatch.py
@@ -189,8 +189,8 @@ class CoMatchMethod(TorchBundlePredictMixin, InductiveMethod):
         alpha = float(self.spec.smoothing_alpha)
         if alpha >= 1.0:
             return probs
-        queue_feats = self._queue_feats[: self._queue_count]
-        queue_probs = self._queue_probs[: self._queue_count]
+        queue_feats = self._queue_feats[: self._queue_count].clone()
+        queue_probs = self._queue_probs[: self._queue_count].clone()
         sim = (feats @ queue_feats.t()) / float(self.spec.temperature)
         affinity = _row_normalize(sim.exp())
         smoothed = alpha * probs + (1.0 - alpha) * (affinity @ queue_probs)
@@ -211,7 +211,7 @@ class CoMatchMethod(TorchBundlePredictMixin, InductiveMethod):
         if self._da_queue is None:
             self._init_da(n_classes=int(probs_u.shape[1]), device=probs_u.device)
         assert self._da_queue is not None
-        mean_u = probs_u.mean(dim=0)
+        mean_u = probs_u.detach().mean(dim=0)
         self._da_queue[self._da_ptr] = mean_u
         self._da_ptr = (self._da_ptr + 1) % int(self.spec.da_len)
         self._da_count = min(int(self.spec.da_len), self._da_count + 1)
diff --git a/src/modssc/inductive/methods/free_match.py b/src/modssc/inductive/methods/free_match.py
index e90383f..8767912 100644
--- a/src/modssc/inductive/methods/free_match.py
+++ b/src/modssc/inductive/methods/free_match.py
@@ -280,7 +280,7 @@ class FreeMatchMethod(TorchBundlePredictMixin, InductiveMethod):
                 probs_u = torch.softmax(logits_uw_target, dim=1)
                 max_probs, max_idx = probs_u.max(dim=1)
 
-                self._update_state(probs_u, max_probs, max_idx)
+                self._update_state(probs_u.detach(), max_probs.detach(), max_idx)
                 assert (
                     self._p_model is not None
                     and self._label_hist is not None
diff --git a/src/modssc/inductive/methods/softmatch.py b/src/modssc/inductive/methods/softmatch.py
index dd28cf6..4f3623d 100644
--- a/src/modssc/inductive/methods/softmatch.py
+++ b/src/modssc/inductive/methods/softmatch.py
@@ -90,7 +90,7 @@ class SoftMatchMethod(TorchBundlePredictMixin, InductiveMethod):
             )
         assert self._p_model is not None and self._p_target is not None
         m = float(self.spec.ema_p)
-        self._p_model = self._p_model * m + (1.0 - m) * probs_u.mean(dim=0)
+        self._p_model = self._p_model * m + (1.0 - m) * probs_u.detach().mean(dim=0)
         if bool(self.spec.dist_uniform):
             target = self._p_target
         else:
@@ -293,7 +293,7 @@ class SoftMatchMethod(TorchBundlePredictMixin, InductiveMethod):
                 max_probs, max_idx = probs_u.max(dim=1)
                 if self._prob_max_mu_t is None or self._prob_max_var_t is None:
                     self._init_stats(n_classes=int(logits_l.shape[1]), device=logits_l.device)
-                self._update_stats(max_probs, max_idx)
+                self._update_stats(max_probs.detach(), max_idx)
 
                 assert self._prob_max_mu_t is not None and self._prob_max_var_t is not None
                 if bool(self.spec.per_class):
-- 
2.43.0


From 6b8ad79cfa49c0cfcda95b6ed9835072ee48eca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 40/64] fix: AdaMatch and CoMatch batches keep edge weights
 aligned with their edges

---
 src/modssc/inductive/methods/adamatch.py | 35 ++----------------------
 src/modssc/inductive/methods/comatch.py  | 30 +++-----------------
 2 files changed, 7 insertions(+), 58 deletions(-)

diff --git a/src/modssc/inductive/methods/adamatch.py b/src/modssc/inductive/methods/adamatch.py
index fa78ccd..418baa2 100644
--- a/src/modssc/inductive/methods/adamatch.py
+++ b/src/modssc/inductive/methods/adamatch.py
@@ -20,6 +20,7 @@ from modssc.inductive.methods.deep_utils import (
     init_alignment_uniform,
     num_batches,
     sharpen_probs,
+    slice_data,
 )
 from modssc.inductive.methods.utils import (
     detect_backend,
@@ -188,36 +189,6 @@ class AdaMatchMethod(TorchBundlePredictMixin, InductiveMethod):
         gen_l = torch.Generator().manual_seed(int(seed))
         gen_u = torch.Generator().manual_seed(int(seed) + 1)
 
-        def _slice_dict(X, idx, n_total):
-            if not isinstance(X, dict):
-                return X[idx]
-            # Always return a dict if input is a dict
-
-            try:
-                from torch_geometric.utils import subgraph
-            except ImportError:
-                return {
-                    k: v[idx] if hasattr(v, "shape") and v.shape[0] == n_total else v
-                    for k, v in X.items()
-                }
-
-            out = {}
-            if "x" in X:
-                out["x"] = X["x"][idx]
-            if "edge_index" in X:
-                # Ensure idx is on same device as edge_index for subgraph
-                # Re-label nodes maps selected indices to 0..batch_size-1
-                idx_dev = idx.to(X["edge_index"].device)
-                ei, _ = subgraph(idx_dev, X["edge_index"], relabel_nodes=True, num_nodes=n_total)
-                out["edge_index"] = ei
-            for k, v in X.items():
-                if k not in ("x", "edge_index"):
-                    if hasattr(v, "shape") and v.shape[0] == n_total:
-                        out[k] = v[idx]
-                    else:
-                        out[k] = v
-            return out
-
         self._p_model = None
         self._p_target = None
 
@@ -238,8 +209,8 @@ class AdaMatchMethod(TorchBundlePredictMixin, InductiveMethod):
                 steps=steps_per_epoch,
             )
             for step, ((x_lb, y_lb), idx_u) in enumerate(zip(iter_l, iter_u_idx, strict=False)):
-                x_uw = _slice_dict(X_u_w, idx_u, int(_get_len(X_u_w)))
-                x_us = _slice_dict(X_u_s, idx_u, int(_get_len(X_u_s)))
+                x_uw = slice_data(X_u_w, idx_u)
+                x_us = slice_data(X_u_s, idx_u)
 
                 if bool(self.spec.use_cat):
                     inputs = concat_data([x_lb, x_uw, x_us])
diff --git a/src/modssc/inductive/methods/comatch.py b/src/modssc/inductive/methods/comatch.py
index 81a3fa8..f603a13 100644
--- a/src/modssc/inductive/methods/comatch.py
+++ b/src/modssc/inductive/methods/comatch.py
@@ -19,6 +19,7 @@ from modssc.inductive.methods.deep_utils import (
     ensure_model_device,
     num_batches,
     one_hot_labels,
+    slice_data,
 )
 from modssc.inductive.methods.utils import (
     detect_backend,
@@ -386,29 +387,6 @@ class CoMatchMethod(TorchBundlePredictMixin, InductiveMethod):
         gen_l = torch.Generator().manual_seed(int(seed))
         gen_u = torch.Generator().manual_seed(int(seed) + 1)
 
-        def _slice(data, idx):
-            if not isinstance(data, dict):
-                return data[idx]
-            out = {}
-            if "x" in data:
-                out["x"] = data["x"][idx]
-            if "edge_index" in data:
-                try:
-                    from torch_geometric.utils import subgraph
-
-                    out["edge_index"], _ = subgraph(
-                        idx, data["edge_index"], relabel_nodes=True, num_nodes=_len(data)
-                    )
-                except ImportError:
-                    pass
-            for k, v in data.items():
-                if k not in ("x", "edge_index"):
-                    if hasattr(v, "shape") and v.shape[0] == _len(data):
-                        out[k] = v[idx]
-                    else:
-                        out[k] = v
-            return out
-
         model.train()
         for epoch in range(int(self.spec.max_epochs)):
             iter_l = cycle_batches(
@@ -426,9 +404,9 @@ class CoMatchMethod(TorchBundlePredictMixin, InductiveMethod):
                 steps=steps_per_epoch,
             )
             for step, ((x_lb, y_lb), idx_u) in enumerate(zip(iter_l, iter_u_idx, strict=False)):
-                x_uw = _slice(X_u_w, idx_u)
-                x_us0 = _slice(X_u_s0, idx_u)
-                x_us1 = _slice(X_u_s1, idx_u)
+                x_uw = slice_data(X_u_w, idx_u)
+                x_us0 = slice_data(X_u_s0, idx_u)
+                x_us1 = slice_data(X_u_s1, idx_u)
 
                 if bool(self.spec.use_cat):
                     inputs = concat_data([x_lb, x_uw, x_us0, x_us1])
-- 
2.43.0


From 928e754220fa0fab880d7237030bafbedc05be34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:39 +0000
Subject: [PATCH 41/64] fix: sharpening with a small temperature stays a
 probability distribution

---
 src/modssc/inductive/methods/helpers/torch_support.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modssc/inductive/methods/helpers/torch_support.py b/src/modssc/inductive/methods/helpers/torch_support.py
index d4cd5f9..d4de7d9 100644
--- a/src/modssc/inductive/methods/helpers/torch_support.py
+++ b/src/modssc/inductive/methods/helpers/torch_support.py
@@ -65,7 +65,9 @@ def sharpen_probs(probs: Any, *, temperature: float) -> Any:
     if temperature == 1.0:
         return probs
     power = 1.0 / float(temperature)
-    sharpened = probs.pow(power)
+    # Scale by the row maximum first: a large power underflows plain probabilities to zero.
+    peak = probs.detach().amax(dim=1, keepdim=True).clamp_min(1e-12)
+    sharpened = (probs / peak).pow(power)
     denom = sharpened.sum(dim=1, keepdim=True)
     denom = denom.clamp_min(1e-12)
     return sharpened / denom
-- 
2.43.0


From ec0e69117bf1c14e2013507fa01b7bf1237c5e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:43 +0000
Subject: [PATCH 42/64] fix: SimCLRv2 predicts with the model it distilled and
 leaves the teacher trainable

---
 src/modssc/inductive/methods/simclr_v2.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/modssc/inductive/methods/simclr_v2.py b/src/modssc/inductive/methods/simclr_v2.py
index 5ea09e6..5a3ebab 100644
--- a/src/modssc/inductive/methods/simclr_v2.py
+++ b/src/modssc/inductive/methods/simclr_v2.py
@@ -442,7 +442,8 @@ class SimCLRv2Method(ArgmaxPredictMixin, InductiveMethod):
                 ensure_model_device(teacher_model, device=get_torch_device(X_uw))
                 _check_distill_models(student_model, teacher_model)
 
-            for p in teacher_model.parameters():
+            frozen = [p for p in teacher_model.parameters() if p.requires_grad]
+            for p in frozen:
                 p.requires_grad_(False)
             teacher_model.eval()
             student_model.train()
@@ -529,12 +530,14 @@ class SimCLRv2Method(ArgmaxPredictMixin, InductiveMethod):
                     loss.backward()
                     optimizer.step()
 
+            for p in frozen:
+                p.requires_grad_(True)
             if student_bundle is not None:
                 finetune_bundle = student_bundle
 
         if int(self.spec.distill_epochs) > 0 and self.spec.student_bundle is not None:
             final_bundle = self.spec.student_bundle
-        elif int(self.spec.finetune_epochs) > 0:
+        elif int(self.spec.finetune_epochs) > 0 or int(self.spec.distill_epochs) > 0:
             final_bundle = finetune_bundle
         else:
             final_bundle = pretrain_bundle
-- 
2.43.0


From bcd23171ca48113f457c63d546d6e42b43c4cd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:36 +0000
Subject: [PATCH 43/64] fix: Tri-net sizes its targets by the heads, not by the
 labels it happens to have

---
 src/modssc/inductive/methods/trinet.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/modssc/inductive/methods/trinet.py b/src/modssc/inductive/methods/trinet.py
index 08e7571..8638c12 100644
--- a/src/modssc/inductive/methods/trinet.py
+++ b/src/modssc/inductive/methods/trinet.py
@@ -245,6 +245,23 @@ def _label_unlabeled(
     return X_pl, labels
 
 
+def _head_width(X: Any, *, shared_bundle: TorchModelBundle, head_bundle: TorchModelBundle) -> int:
+    torch = optional_import("torch", extra="inductive-torch")
+    models = (shared_bundle.model, head_bundle.model)
+    modes = [model.training for model in models]
+    for model in models:
+        model.eval()
+    with torch.no_grad():
+        logits = _forward_head(
+            head_bundle, _forward_shared(shared_bundle, slice_data(X, slice(0, 1)))
+        )
+    for model, mode in zip(models, modes, strict=True):
+        model.train(mode)
+    if int(logits.ndim) != 2:
+        raise InductiveValidationError("Head logits must be 2D (batch, classes).")
+    return int(logits.shape[1])
+
+
 def _train_head(
     X: Any,
     targets: Any,
@@ -462,7 +479,10 @@ class TriNetMethod(ArgmaxPredictMixin, InductiveMethod):
         if not (0.0 <= float(self.spec.des_drop_fraction) <= 1.0):
             raise InductiveValidationError("des_drop_fraction must be in [0, 1].")
 
-        n_classes = int(y_l.max().item()) + 1
+        n_classes = max(
+            int(y_l.max().item()) + 1,
+            _head_width(X_l, shared_bundle=shared_bundle, head_bundle=head_bundles[0]),
+        )
         if y_l.min().item() < 0:
             raise InductiveValidationError("y_l labels must be non-negative.")
         y_l_onehot = _one_hot(y_l, n_classes=n_classes)
-- 
2.43.0


From 54be664fa0ecf70926fdfc90dac6602e80f39fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:52 +0000
Subject: [PATCH 44/64] fix: CoMatch keeps its memory and alignment queues in
 the model's precision

---
 src/modssc/inductive/methods/comatch.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/modssc/inductive/methods/comatch.py b/src/modssc/inductive/methods/comatch.py
index f603a13..aa51bcc 100644
--- a/src/modssc/inductive/methods/comatch.py
+++ b/src/modssc/inductive/methods/comatch.py
@@ -146,12 +146,15 @@ class CoMatchMethod(TorchBundlePredictMixin, InductiveMethod):
         self._da_count: int = 0
         self._da_target: Any | None = None
 
-    def _init_memory(self, *, feat_dim: int, n_classes: int, device: Any) -> None:
+    def _init_memory(
+        self, *, feat_dim: int, n_classes: int, device: Any, dtype: Any = None
+    ) -> None:
         if int(self.spec.queue_size) <= 0:
             return
         torch = optional_import("torch", extra="inductive-torch")
-        self._queue_feats = torch.zeros((int(self.spec.queue_size), int(feat_dim)), device=device)
-        self._queue_probs = torch.zeros((int(self.spec.queue_size), int(n_classes)), device=device)
+        size = int(self.spec.queue_size)
+        self._queue_feats = torch.zeros((size, int(feat_dim)), device=device, dtype=dtype)
+        self._queue_probs = torch.zeros((size, int(n_classes)), device=device, dtype=dtype)
         self._queue_ptr = 0
         self._queue_count = 0
 
@@ -197,20 +200,26 @@ class CoMatchMethod(TorchBundlePredictMixin, InductiveMethod):
         smoothed = alpha * probs + (1.0 - alpha) * (affinity @ queue_probs)
         return smoothed
 
-    def _init_da(self, *, n_classes: int, device: Any) -> None:
+    def _init_da(self, *, n_classes: int, device: Any, dtype: Any = None) -> None:
         if int(self.spec.da_len) <= 0:
             return
         torch = optional_import("torch", extra="inductive-torch")
-        self._da_queue = torch.zeros((int(self.spec.da_len), int(n_classes)), device=device)
+        self._da_queue = torch.zeros(
+            (int(self.spec.da_len), int(n_classes)), device=device, dtype=dtype
+        )
         self._da_ptr = 0
         self._da_count = 0
-        self._da_target = torch.full((int(n_classes),), 1.0 / float(n_classes), device=device)
+        self._da_target = torch.full(
+            (int(n_classes),), 1.0 / float(n_classes), device=device, dtype=dtype
+        )
 
     def _dist_align(self, probs_u: Any, *, probs_l: Any | None) -> Any:
         if not bool(self.spec.dist_align) or int(self.spec.da_len) <= 0:
             return probs_u
         if self._da_queue is None:
-            self._init_da(n_classes=int(probs_u.shape[1]), device=probs_u.device)
+            self._init_da(
+                n_classes=int(probs_u.shape[1]), device=probs_u.device, dtype=probs_u.dtype
+            )
         assert self._da_queue is not None
         mean_u = probs_u.detach().mean(dim=0)
         self._da_queue[self._da_ptr] = mean_u
@@ -471,6 +480,7 @@ class CoMatchMethod(TorchBundlePredictMixin, InductiveMethod):
                         feat_dim=int(feats_uw.shape[1]),
                         n_classes=int(logits_lb.shape[1]),
                         device=feats_uw.device,
+                        dtype=feats_uw.dtype,
                     )
 
                 sup_loss = torch.nn.functional.cross_entropy(logits_lb, y_lb)
-- 
2.43.0


From e160fa00f294d4c20d6bc15bead6270f96e78ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:52 +0000
Subject: [PATCH 45/64] fix: joining a weighted and an unweighted graph batch
 gives the missing edges weight one

---
 src/modssc/inductive/methods/helpers/torch_support.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/modssc/inductive/methods/helpers/torch_support.py b/src/modssc/inductive/methods/helpers/torch_support.py
index d4de7d9..54937fe 100644
--- a/src/modssc/inductive/methods/helpers/torch_support.py
+++ b/src/modssc/inductive/methods/helpers/torch_support.py
@@ -403,9 +403,15 @@ def cat_data(data_list: list[Any]) -> Any:
             try:
                 from torch_geometric.data import Batch, Data
 
+                weighted = any(d.get("edge_weight") is not None for d in data_list)
                 objs = []
                 for d in data_list:
                     kwargs = {k: v for k, v in d.items() if k not in ("batch", "ptr")}
+                    if weighted and kwargs.get("edge_weight") is None:
+                        n_edges = int(kwargs["edge_index"].shape[1])
+                        kwargs["edge_weight"] = torch.ones(
+                            n_edges, device=kwargs["edge_index"].device
+                        )
                     objs.append(Data(**kwargs))
 
                 batch = Batch.from_data_list(objs)
-- 
2.43.0


From 3d1ebdd36e1d03c9b7dd81776105282a1a1ac26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:01 +0000
Subject: [PATCH 46/64] fix: swap noise on tensors draws from the augmentation
 context, not torch's global generator

---
 src/modssc/data_augmentation/ops/tabular.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/modssc/data_augmentation/ops/tabular.py b/src/modssc/data_augmentation/ops/tabular.py
index cf32383..642c598 100644
--- a/src/modssc/data_augmentation/ops/tabular.py
+++ b/src/modssc/data_augmentation/ops/tabular.py
@@ -82,8 +82,10 @@ class SwapNoise(AugmentationOp):
 
             torch = importlib.import_module("torch")
 
-            mask_swap = torch.rand(x.shape, device=x.device) < p
-            noise = torch.randn(x.shape, device=x.device, dtype=x.dtype)
+            seed = int(rng.integers(0, 1 << 31))
+            gen = torch.Generator(device=x.device).manual_seed(seed)
+            mask_swap = torch.rand(x.shape, generator=gen, device=x.device) < p
+            noise = torch.randn(x.shape, generator=gen, device=x.device, dtype=x.dtype)
 
             # Where mask_swap is True, use noise, else x
             return torch.where(mask_swap, noise, x)
-- 
2.43.0


From 769eb60593dbd589e63da1cb0973ddc177327fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:36 +0000
Subject: [PATCH 47/64] fix: the runner scores the labels a method predicts,
 not its score columns' positions

---
 bench/orchestrators/evaluation.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/bench/orchestrators/evaluation.py b/bench/orchestrators/evaluation.py
index bea37d4..4b9e4c4 100644
--- a/bench/orchestrators/evaluation.py
+++ b/bench/orchestrators/evaluation.py
@@ -234,6 +234,14 @@ def _infer_method_device(method: Any) -> Any | None:
     return None
 
 
+def _predicted_labels(method: Any, X: Any) -> np.ndarray:
+    # Score columns follow the method's own class order; only predict() names the original labels.
+    predict = getattr(method, "predict", None)
+    if callable(predict):
+        return labels_1d(predict(X))
+    return predict_labels(method.predict_proba(X))
+
+
 def evaluate_inductive(
     *,
     method: Any,
@@ -287,13 +295,12 @@ def evaluate_inductive(
                 strict=strict,
             )
             data = InductiveDataset(X_l=X, y_l=y, views=views_payload)
-            scores = method.predict_proba(data)
+            model_input: Any = data
         else:
-            scores = method.predict_proba(X)
+            model_input = X
 
-        scores_np = to_numpy(scores)
         y_true = labels_1d(y)
-        y_pred = predict_labels(scores_np)
+        y_pred = _predicted_labels(method, model_input)
         results[split] = compute_metrics(y_true, y_pred, metrics)
         _log_split_metrics(
             kind="inductive",
-- 
2.43.0


From 4ac2f49fb10074bd1e7cadd372ac8b3a93741a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:59 +0000
Subject: [PATCH 48/64] fix: rows are scored on the tensors' backend also when
 a torch-trained method holds no module

---
 bench/orchestrators/evaluation.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/bench/orchestrators/evaluation.py b/bench/orchestrators/evaluation.py
index 4b9e4c4..3c48aad 100644
--- a/bench/orchestrators/evaluation.py
+++ b/bench/orchestrators/evaluation.py
@@ -231,6 +231,26 @@ def _infer_method_device(method: Any) -> Any | None:
             dev = _first_torch_device(getattr(candidate, nested, None))
             if dev is not None:
                 return dev
+    return _state_torch_device(method)
+
+
+def _state_torch_device(obj: Any, *, depth: int = 4) -> Any | None:
+    """Device of the first tensor or module held anywhere in an object's fitted state."""
+    dev = _first_torch_device(obj)
+    if dev is not None or depth <= 0:
+        return dev
+    if isinstance(obj, Mapping):
+        children: Iterable[Any] = obj.values()
+    elif isinstance(obj, (list, tuple)):
+        children = obj
+    else:
+        children = getattr(obj, "__dict__", {}).values()
+    for child in children:
+        if child is None or isinstance(child, (str, bytes, int, float, np.ndarray)):
+            continue
+        dev = _state_torch_device(child, depth=depth - 1)
+        if dev is not None:
+            return dev
     return None
 
 
-- 
2.43.0


From cc9d44ea6a25d34aa6c489d2e313e6d132c2db1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:45 +0000
Subject: [PATCH 49/64] fix: selecting nodes keeps the weights of the edges
 kept, not of the nodes' positions

---
 bench/orchestrators/slicing.py | 39 +++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/bench/orchestrators/slicing.py b/bench/orchestrators/slicing.py
index bc5eb09..385625e 100644
--- a/bench/orchestrators/slicing.py
+++ b/bench/orchestrators/slicing.py
@@ -36,7 +36,15 @@ def _infer_num_nodes(X: Mapping[str, Any]) -> int | None:
         return None
 
 
-def _slice_edge_index(edge_index: Any, idx: np.ndarray, *, num_nodes: int | None = None) -> Any:
+def _edge_count(edge_index: Any) -> int | None:
+    shape = getattr(edge_index, "shape", None)
+    return int(shape[1]) if shape is not None and len(shape) == 2 else None
+
+
+def _slice_edge_index(
+    edge_index: Any, idx: np.ndarray, *, num_nodes: int | None = None
+) -> tuple[Any, np.ndarray]:
+    """Induced edges of the selected nodes, and the mask of the edges kept."""
     try:
         import importlib
 
@@ -57,11 +65,12 @@ def _slice_edge_index(edge_index: Any, idx: np.ndarray, *, num_nodes: int | None
 
     subset = torch.as_tensor(idx, dtype=torch.long, device=device)
     try:
-        sub_ei, _ = pyg_utils.subgraph(
+        sub_ei, _, kept = pyg_utils.subgraph(
             subset,
             ei,
             relabel_nodes=True,
             num_nodes=None if num_nodes is None else int(num_nodes),
+            return_edge_mask=True,
         )
     except (RuntimeError, TypeError, ValueError) as exc:
         raise BenchRuntimeError(
@@ -69,9 +78,10 @@ def _slice_edge_index(edge_index: Any, idx: np.ndarray, *, num_nodes: int | None
             f"failed to slice edge_index with relabel_nodes=True: {exc}",
         ) from exc
 
+    mask = kept.detach().cpu().numpy()
     if is_torch_tensor(edge_index):
-        return sub_ei
-    return sub_ei.detach().cpu().numpy()
+        return sub_ei, mask
+    return sub_ei.detach().cpu().numpy(), mask
 
 
 def _slice_tensor(x: Any, idx: np.ndarray) -> Any:
@@ -100,6 +110,16 @@ def _should_slice_by_dim0(x: Any, idx: np.ndarray) -> bool:
         return False
 
 
+def _is_per_edge(key: Any, value: Any, n_edges: int) -> bool:
+    if not str(key).startswith("edge_") or not (
+        is_torch_tensor(value) or isinstance(value, (np.ndarray, list))
+    ):
+        return False
+    shape = getattr(value, "shape", None)
+    n_rows = len(value) if shape is None else (int(shape[0]) if len(shape) else -1)
+    return n_rows == n_edges
+
+
 def select_rows(
     X: Any,
     idx: np.ndarray | list[int],
@@ -113,11 +133,20 @@ def select_rows(
     if isinstance(X, Mapping):
         out: dict[str, Any] = {}
         num_nodes = _infer_num_nodes(X)
+        n_edges: int | None = None
+        kept_edges = np.empty(0, dtype=np.int64)
         if "edge_index" in X:
-            out["edge_index"] = _slice_edge_index(X["edge_index"], idx_arr, num_nodes=num_nodes)
+            n_edges = _edge_count(X["edge_index"])
+            out["edge_index"], kept = _slice_edge_index(
+                X["edge_index"], idx_arr, num_nodes=num_nodes
+            )
+            kept_edges = np.flatnonzero(kept)
         for k, v in X.items():
             if k == "edge_index":
                 continue
+            if n_edges is not None and _is_per_edge(k, v, n_edges):
+                out[k] = select_rows(v, kept_edges, context=f"{context}.{k}")
+                continue
             if is_torch_tensor(v):
                 if _should_slice_by_dim0(v, idx_arr):
                     out[k] = _slice_tensor(v, idx_arr)
-- 
2.43.0


From bdcfdde00aee4ad6dc36901c1f7ec9ddb4d64737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:45 +0000
Subject: [PATCH 50/64] fix: the runner's graph over train and test nodes gets
 its own cache entry

---
 bench/orchestrators/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bench/orchestrators/graph.py b/bench/orchestrators/graph.py
index 9d282c3..d2a3361 100644
--- a/bench/orchestrators/graph.py
+++ b/bench/orchestrators/graph.py
@@ -84,6 +84,9 @@ def build(
 
     if X_test is not None:
         X = np.concatenate([_to_numpy(X_train), _to_numpy(X_test)], axis=0)
+        # A graph over train and test nodes is another graph than the train-only one of the same data.
+        if dataset_fingerprint is not None:
+            dataset_fingerprint = f"{dataset_fingerprint}+test"
     else:
         X = _to_numpy(X_train)
     _LOGGER.debug("Graph features: shape=%s", tuple(np.asarray(X).shape))
-- 
2.43.0


From 929955c6ce5dd6322e3e7df89dd63c1ab8502915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 51/64] fix: a metric that is not a number no longer aborts the
 aggregate of a seed sweep

---
 bench/orchestrators/reporting.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bench/orchestrators/reporting.py b/bench/orchestrators/reporting.py
index 6c74638..73c6d90 100644
--- a/bench/orchestrators/reporting.py
+++ b/bench/orchestrators/reporting.py
@@ -4,6 +4,7 @@ import json
 import logging
 from dataclasses import asdict
 from datetime import UTC, datetime
+from math import isfinite
 from pathlib import Path
 from statistics import fmean, pstdev
 from time import perf_counter
@@ -108,6 +109,12 @@ def _set_nested(mapping: dict[str, Any], path: tuple[str, ...], value: Any) -> N
     cur[path[-1]] = value
 
 
+def _population_std(values: list[float]) -> float:
+    if not all(isfinite(v) for v in values):
+        return float("nan")
+    return float(pstdev(values))
+
+
 def write_seed_sweep_summary(
     *,
     output_dir: Path,
@@ -154,7 +161,7 @@ def write_seed_sweep_summary(
             {
                 "count": len(values),
                 "mean": float(fmean(values)),
-                "std": float(pstdev(values)) if len(values) > 1 else 0.0,
+                "std": _population_std(values) if len(values) > 1 else 0.0,
                 "min": float(min(values)),
                 "max": float(max(values)),
                 "values": [float(v) for v in values],
-- 
2.43.0


From 6e1887284a2bc4751dc634007e34b79ce2d88375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 52/64] fix: the trials of a search run under the configured
 limits

---
 bench/orchestrators/hpo.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bench/orchestrators/hpo.py b/bench/orchestrators/hpo.py
index 308e106..3969f0b 100644
--- a/bench/orchestrators/hpo.py
+++ b/bench/orchestrators/hpo.py
@@ -12,6 +12,7 @@ import numpy as np
 from modssc.hpo import Space, deep_merge
 
 from ..context import RunContext
+from ..limits import apply_limits
 from ..schema import BenchConfigError, ExperimentConfig
 from . import evaluation as eval_orch
 from . import method_inductive as inductive_orch
@@ -98,7 +99,11 @@ def run_hpo(
             n_trials += 1
             trial_start = perf_counter()
             _LOGGER.debug("HPO trial %s params=%s", trial.index, trial.params)
-            patched_dict = deep_merge(base_cfg_dict, trial.patch)
+            patched_dict, _, _ = apply_limits(
+                deep_merge(base_cfg_dict, trial.patch),
+                limits=base_cfg.limits,
+                strict=base_cfg.run.benchmark_mode,
+            )
             trial_cfg = ExperimentConfig.from_dict(patched_dict)
 
             scores = []
-- 
2.43.0


From 2c9204ed8290aef4c8f5d6a19d0ea4fe8de5da22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:56 +0000
Subject: [PATCH 53/64] fix: CNN bundles take the input layouts their builders
 accept

---
 .../deep/bundle_factories/factory.py          | 26 ++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/modssc/inductive/deep/bundle_factories/factory.py b/src/modssc/inductive/deep/bundle_factories/factory.py
index 6784fc4..dee817e 100644
--- a/src/modssc/inductive/deep/bundle_factories/factory.py
+++ b/src/modssc/inductive/deep/bundle_factories/factory.py
@@ -203,10 +203,14 @@ def _build_image_cnn_bundle(
     input_shape = params.get("input_shape")
 
     torch.manual_seed(int(seed))
-    in_channels, _h, _w = _infer_image_shape(sample, input_shape=input_shape)
+    in_channels, height, width = _infer_image_shape(sample, input_shape=input_shape)
 
     class _InductiveImageCNN(image_cnn_backend._ImageCNN):
         def forward(self, x: Any):
+            if x.ndim == 3:
+                x = x.unsqueeze(1)
+            elif x.ndim == 2:
+                x = x.reshape(int(x.shape[0]), in_channels, height, width)
             x = self.conv(x)
             x = self.pool(x)
             x = torch.flatten(x, 1)
@@ -267,7 +271,14 @@ def _build_audio_cnn_bundle(
 
     torch.manual_seed(int(seed))
     in_channels = _infer_audio_channels(sample, input_shape=input_shape)
-    model = audio_cnn_backend._AudioCNN(
+
+    class _InductiveAudioCNN(audio_cnn_backend._AudioCNN):
+        def forward(self, x: Any):
+            if x.ndim == 2:
+                x = x.reshape(int(x.shape[0]), in_channels, -1)
+            return super().forward(x)
+
+    model = _InductiveAudioCNN(
         in_channels=in_channels,
         conv_channels=conv_channels,
         kernel_size=kernel_size,
@@ -322,7 +333,16 @@ def _build_text_cnn_bundle(
     usable = tuple(k for k in kernel_sizes if int(k) <= int(seq_len))
     if not usable:
         raise InductiveValidationError("text_cnn kernel_sizes are larger than sequence length.")
-    model = text_cnn_backend._TextCNN(
+
+    class _InductiveTextCNN(text_cnn_backend._TextCNN):
+        def forward(self, x: Any):
+            if x.ndim == 2:
+                x = x.unsqueeze(1)
+            elif input_layout == "channels_last":
+                x = x.transpose(1, 2)
+            return super().forward(x)
+
+    model = _InductiveTextCNN(
         in_channels=in_channels,
         kernel_sizes=usable,
         num_filters=num_filters,
-- 
2.43.0


From 6f1f1a58d0f525e5ad98dabf089c237c7b06f549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:56 +0000
Subject: [PATCH 54/64] fix: LSTM bundle applies dropout to what its head reads

---
 src/modssc/inductive/deep/bundle_factories/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modssc/inductive/deep/bundle_factories/factory.py b/src/modssc/inductive/deep/bundle_factories/factory.py
index dee817e..0fae3e7 100644
--- a/src/modssc/inductive/deep/bundle_factories/factory.py
+++ b/src/modssc/inductive/deep/bundle_factories/factory.py
@@ -678,7 +678,7 @@ def _build_lstm_bundle(
             else:
                 h = h_n[-1]
 
-            logits = self.fc(h)
+            logits = self.fc(self.dropout(h))
             if return_features:
                 return logits, h
             return logits
-- 
2.43.0


From 9d8935f72320143bc48170889da87a42f872c8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:56 +0000
Subject: [PATCH 55/64] fix: LSTM bundle counts the vocabulary over all rows

---
 src/modssc/inductive/deep/bundle_factories/factory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modssc/inductive/deep/bundle_factories/factory.py b/src/modssc/inductive/deep/bundle_factories/factory.py
index 0fae3e7..b4e0ec9 100644
--- a/src/modssc/inductive/deep/bundle_factories/factory.py
+++ b/src/modssc/inductive/deep/bundle_factories/factory.py
@@ -612,7 +612,6 @@ def _build_lstm_bundle(
     ema: bool,
 ) -> TorchModelBundle:
     torch = _torch()
-    sample = _take_sample(sample)
 
     vocab_size = int(params.get("vocab_size", 0))
     if vocab_size <= 0:
@@ -827,6 +826,7 @@ def build_torch_bundle_from_classifier(
     params = dict(classifier_params or {})
     return_features = bool(params.get("return_features", False))
     torch = _torch()
+    tokens = sample
     sample = _take_sample(sample)
     if not isinstance(sample, torch.Tensor) and not (isinstance(sample, dict) and "x" in sample):
         # Allow dict only if it looks like graph data (has "x")
@@ -916,7 +916,7 @@ def build_torch_bundle_from_classifier(
         )
     if key == "lstm_scratch":
         return _build_lstm_bundle(
-            sample,
+            tokens,
             num_classes=num_classes,
             params=params,
             seed=seed,
-- 
2.43.0


From 289b2a39ad75f36e2186fd4762ab864a50a8e38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:56 +0000
Subject: [PATCH 56/64] fix: audio and text CNN models can be copied for a
 weight average

---
 src/modssc/supervised/backends/torch/audio_cnn.py | 3 +--
 src/modssc/supervised/backends/torch/text_cnn.py  | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/modssc/supervised/backends/torch/audio_cnn.py b/src/modssc/supervised/backends/torch/audio_cnn.py
index 7ab63de..2ad0f24 100644
--- a/src/modssc/supervised/backends/torch/audio_cnn.py
+++ b/src/modssc/supervised/backends/torch/audio_cnn.py
@@ -57,7 +57,6 @@ class _AudioCNN(torch.nn.Module):
     ) -> None:
         super().__init__()
         torch = _torch()
-        self._torch = torch
         layers: list[Any] = []
         current = int(in_channels)
         for out_ch in conv_channels:
@@ -86,7 +85,7 @@ class _AudioCNN(torch.nn.Module):
         self.head = torch.nn.Sequential(*head)
 
     def forward(self, x: Any):
-        torch = self._torch
+        torch = _torch()
         x = self.conv(x)
         x = self.pool(x)
         x = torch.flatten(x, 1)
diff --git a/src/modssc/supervised/backends/torch/text_cnn.py b/src/modssc/supervised/backends/torch/text_cnn.py
index 5d83df1..dfcf189 100644
--- a/src/modssc/supervised/backends/torch/text_cnn.py
+++ b/src/modssc/supervised/backends/torch/text_cnn.py
@@ -39,7 +39,6 @@ class _TextCNN(torch.nn.Module):
     ) -> None:
         super().__init__()
         torch = _torch()
-        self._torch = torch
         self.convs = torch.nn.ModuleList(
             [
                 torch.nn.Conv1d(
@@ -55,7 +54,7 @@ class _TextCNN(torch.nn.Module):
         self.fc = torch.nn.Linear(int(num_filters) * int(len(self.convs)), int(n_classes))
 
     def forward(self, x: Any):
-        torch = self._torch
+        torch = _torch()
         feats = []
         for conv in self.convs:
             out = conv(x)
-- 
2.43.0


From e2a2e84d55c9749ffd40dff408c39ff47906e97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:40 +0000
Subject: [PATCH 57/64] fix: keep torch's global random state unchanged in
 graph.node2vec and graph.dgi

---
 src/modssc/preprocess/steps/base.py           |  9 ++
 src/modssc/preprocess/steps/graph/dgi.py      | 61 ++++++------
 src/modssc/preprocess/steps/graph/node2vec.py | 92 ++++++++++---------
 3 files changed, 87 insertions(+), 75 deletions(-)

diff --git a/src/modssc/preprocess/steps/base.py b/src/modssc/preprocess/steps/base.py
index 6214143..20c8991 100644
--- a/src/modssc/preprocess/steps/base.py
+++ b/src/modssc/preprocess/steps/base.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import contextlib
 from dataclasses import dataclass
 from typing import Any
 
@@ -10,6 +11,14 @@ from modssc.preprocess.numpy_adapter import to_numpy
 from modssc.preprocess.store import ArtifactStore
 
 
+def fork_torch_rng(torch: Any) -> contextlib.AbstractContextManager[None]:
+    """Context in which seeding and drawing leave torch's global random state unchanged."""
+    random = getattr(torch, "random", None)
+    if random is None:
+        return contextlib.nullcontext()
+    return random.fork_rng(devices=range(torch.cuda.device_count()))
+
+
 def get_X(store: ArtifactStore) -> Any:
     """Return the best available X input (prefer features.X over raw.X)."""
     if "features.X" in store:
diff --git a/src/modssc/preprocess/steps/graph/dgi.py b/src/modssc/preprocess/steps/graph/dgi.py
index 89ac6df..4e8a394 100644
--- a/src/modssc/preprocess/steps/graph/dgi.py
+++ b/src/modssc/preprocess/steps/graph/dgi.py
@@ -7,7 +7,7 @@ import numpy as np
 
 from modssc.preprocess.errors import PreprocessValidationError
 from modssc.preprocess.optional import require
-from modssc.preprocess.steps.base import get_X
+from modssc.preprocess.steps.base import fork_torch_rng, get_X
 from modssc.preprocess.store import ArtifactStore
 from modssc.runtime.device import resolve_device_name
 
@@ -145,43 +145,44 @@ def _train_dgi(
         edge_index_t, edge_weight_t = _add_self_loops(edge_index_t, edge_weight_t, n_nodes=n_nodes)
     edge_weight_t = _normalize_edge_weight(edge_index_t, edge_weight_t, n_nodes=n_nodes)
 
-    torch.manual_seed(int(seed))
-    encoder = _GCNEncoder(
-        X_t.shape[1],
-        hidden=int(hidden_dim),
-        out_dim=int(embedding_dim),
-        dropout=float(dropout),
-    ).to(dev)
-    disc = _Discriminator(int(embedding_dim)).to(dev)
-
-    optimizer = torch.optim.Adam(
-        list(encoder.parameters()) + list(disc.parameters()), lr=float(unsup_lr)
-    )
-    bce = torch.nn.BCEWithLogitsLoss()
+    with fork_torch_rng(torch):
+        torch.manual_seed(int(seed))
+        encoder = _GCNEncoder(
+            X_t.shape[1],
+            hidden=int(hidden_dim),
+            out_dim=int(embedding_dim),
+            dropout=float(dropout),
+        ).to(dev)
+        disc = _Discriminator(int(embedding_dim)).to(dev)
+
+        optimizer = torch.optim.Adam(
+            list(encoder.parameters()) + list(disc.parameters()), lr=float(unsup_lr)
+        )
+        bce = torch.nn.BCEWithLogitsLoss()
 
-    for _epoch in range(int(unsup_epochs)):
-        encoder.train()
-        disc.train()
+        for _epoch in range(int(unsup_epochs)):
+            encoder.train()
+            disc.train()
 
-        perm = torch.randperm(n_nodes, device=X_t.device)
-        x_corrupt = X_t[perm]
+            perm = torch.randperm(n_nodes, device=X_t.device)
+            x_corrupt = X_t[perm]
 
-        h_pos = encoder(X_t, edge_index_t, edge_weight_t, n_nodes=n_nodes)
-        h_neg = encoder(x_corrupt, edge_index_t, edge_weight_t, n_nodes=n_nodes)
+            h_pos = encoder(X_t, edge_index_t, edge_weight_t, n_nodes=n_nodes)
+            h_neg = encoder(x_corrupt, edge_index_t, edge_weight_t, n_nodes=n_nodes)
 
-        s = torch.sigmoid(h_pos.mean(dim=0))
+            s = torch.sigmoid(h_pos.mean(dim=0))
 
-        logits_pos = disc(h_pos, s)
-        logits_neg = disc(h_neg, s)
+            logits_pos = disc(h_pos, s)
+            logits_neg = disc(h_neg, s)
 
-        lbl_pos = torch.ones_like(logits_pos)
-        lbl_neg = torch.zeros_like(logits_neg)
+            lbl_pos = torch.ones_like(logits_pos)
+            lbl_neg = torch.zeros_like(logits_neg)
 
-        loss = bce(logits_pos, lbl_pos) + bce(logits_neg, lbl_neg)
+            loss = bce(logits_pos, lbl_pos) + bce(logits_neg, lbl_neg)
 
-        optimizer.zero_grad()
-        loss.backward()
-        optimizer.step()
+            optimizer.zero_grad()
+            loss.backward()
+            optimizer.step()
 
     encoder.eval()
     with torch.no_grad():
diff --git a/src/modssc/preprocess/steps/graph/node2vec.py b/src/modssc/preprocess/steps/graph/node2vec.py
index eceb568..c8c26b5 100644
--- a/src/modssc/preprocess/steps/graph/node2vec.py
+++ b/src/modssc/preprocess/steps/graph/node2vec.py
@@ -13,6 +13,7 @@ from modssc.graph.featurization.node2vec import (
 )
 from modssc.preprocess.errors import PreprocessValidationError
 from modssc.preprocess.optional import require
+from modssc.preprocess.steps.base import fork_torch_rng
 from modssc.preprocess.store import ArtifactStore
 from modssc.runtime.device import resolve_device_name
 
@@ -97,52 +98,53 @@ class GraphNode2VecStep:
         torch = require(module="torch", extra="transductive-torch", purpose="graph.node2vec")
         dev_name = resolve_device_name(self.device, torch=torch) or "cpu"
         device = torch.device(dev_name)
-        manual_seed = getattr(torch, "manual_seed", None)
-        if manual_seed is not None:
-            manual_seed(seed)
-        emb = torch.nn.Embedding(n_nodes, int(self.embedding_dim)).to(device)
-        ctx = torch.nn.Embedding(n_nodes, int(self.embedding_dim)).to(device)
-        optimizer = torch.optim.Adam(
-            list(emb.parameters()) + list(ctx.parameters()), lr=float(self.embed_lr)
-        )
+        with fork_torch_rng(torch):
+            manual_seed = getattr(torch, "manual_seed", None)
+            if manual_seed is not None:
+                manual_seed(seed)
+            emb = torch.nn.Embedding(n_nodes, int(self.embedding_dim)).to(device)
+            ctx = torch.nn.Embedding(n_nodes, int(self.embedding_dim)).to(device)
+            optimizer = torch.optim.Adam(
+                list(emb.parameters()) + list(ctx.parameters()), lr=float(self.embed_lr)
+            )
 
-        centers_t = torch.as_tensor(centers, dtype=torch.long)
-        contexts_t = torch.as_tensor(contexts, dtype=torch.long)
-
-        n_pairs = int(centers_t.shape[0])
-        order = np.arange(n_pairs, dtype=np.int64)
-
-        for _epoch in range(int(self.embed_epochs)):
-            np_rng.shuffle(order)
-            for i in range(0, n_pairs, int(self.batch_size)):
-                idx = order[i : i + int(self.batch_size)]
-                c = centers_t[idx].to(device)
-                pos = contexts_t[idx].to(device)
-
-                neg_np = _sample_negatives(
-                    np_rng,
-                    num_nodes=n_nodes,
-                    batch_size=len(idx),
-                    num_neg=int(self.num_negative),
-                    dist=dist,
-                )
-                neg = torch.as_tensor(neg_np, dtype=torch.long, device=device)
-
-                v = emb(c)
-                u_pos = ctx(pos)
-                pos_score = (v * u_pos).sum(dim=-1)
-
-                u_neg = ctx(neg)
-                neg_score = (v.unsqueeze(1) * u_neg).sum(dim=-1)
-
-                loss = (
-                    -torch.nn.functional.logsigmoid(pos_score)
-                    - torch.nn.functional.logsigmoid(-neg_score).sum(dim=1)
-                ).mean()
-
-                optimizer.zero_grad()
-                loss.backward()
-                optimizer.step()
+            centers_t = torch.as_tensor(centers, dtype=torch.long)
+            contexts_t = torch.as_tensor(contexts, dtype=torch.long)
+
+            n_pairs = int(centers_t.shape[0])
+            order = np.arange(n_pairs, dtype=np.int64)
+
+            for _epoch in range(int(self.embed_epochs)):
+                np_rng.shuffle(order)
+                for i in range(0, n_pairs, int(self.batch_size)):
+                    idx = order[i : i + int(self.batch_size)]
+                    c = centers_t[idx].to(device)
+                    pos = contexts_t[idx].to(device)
+
+                    neg_np = _sample_negatives(
+                        np_rng,
+                        num_nodes=n_nodes,
+                        batch_size=len(idx),
+                        num_neg=int(self.num_negative),
+                        dist=dist,
+                    )
+                    neg = torch.as_tensor(neg_np, dtype=torch.long, device=device)
+
+                    v = emb(c)
+                    u_pos = ctx(pos)
+                    pos_score = (v * u_pos).sum(dim=-1)
+
+                    u_neg = ctx(neg)
+                    neg_score = (v.unsqueeze(1) * u_neg).sum(dim=-1)
+
+                    loss = (
+                        -torch.nn.functional.logsigmoid(pos_score)
+                        - torch.nn.functional.logsigmoid(-neg_score).sum(dim=1)
+                    ).mean()
+
+                    optimizer.zero_grad()
+                    loss.backward()
+                    optimizer.step()
 
         out = emb.weight.detach().cpu().numpy().astype(np.float32, copy=False)
         return {"features.X": out}
-- 
2.43.0


From 80964b03c3810468c8d8e959b3a33a0c0d9e658c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 58/64] fix: refuse to score labels and predictions of
 different shapes

---
 src/modssc/evaluation/metrics.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modssc/evaluation/metrics.py b/src/modssc/evaluation/metrics.py
index c085ad4..5110cc4 100644
--- a/src/modssc/evaluation/metrics.py
+++ b/src/modssc/evaluation/metrics.py
@@ -108,6 +108,11 @@ def list_metrics() -> list[str]:
 def compute_metrics(
     y_true: np.ndarray, y_pred: np.ndarray, metrics: Iterable[str]
 ) -> dict[str, float]:
+    if np.shape(y_true) != np.shape(y_pred):
+        raise ValueError(
+            "y_true and y_pred must have the same shape, "
+            f"got {np.shape(y_true)} and {np.shape(y_pred)}"
+        )
     out: dict[str, float] = {}
     available = list_metrics()
     for name in metrics:
-- 
2.43.0


From b98f62f9c58eefb6a6dcf0abd646ab6011d9334a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:05 +0000
Subject: [PATCH 59/64] fix: score predicted string labels as they are

---
 src/modssc/evaluation/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modssc/evaluation/metrics.py b/src/modssc/evaluation/metrics.py
index 5110cc4..9fafb9d 100644
--- a/src/modssc/evaluation/metrics.py
+++ b/src/modssc/evaluation/metrics.py
@@ -18,7 +18,7 @@ def labels_1d(y: Any) -> np.ndarray:
 def predict_labels(scores_or_labels: Any) -> np.ndarray:
     scores = to_numpy(scores_or_labels)
     if scores.ndim == 1:
-        return scores.astype(int, copy=False)
+        return scores.astype(int, copy=False) if scores.dtype.kind in "biuf" else scores
     return scores.argmax(axis=1)
 
 
-- 
2.43.0


From 2a7c871a54a2834553534828def12c6d0d6b965c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:16 +0000
Subject: [PATCH 60/64] fix: keep the global --log-level for sub-commands

---
 src/modssc/runtime/logging.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modssc/runtime/logging.py b/src/modssc/runtime/logging.py
index c0c0f59..e233a53 100644
--- a/src/modssc/runtime/logging.py
+++ b/src/modssc/runtime/logging.py
@@ -101,7 +101,9 @@ def _configure_logger(name: str, *, level: int, fmt: str) -> None:
 
 def add_log_level_callback(app: typer.Typer) -> None:
     @app.callback()
-    def _log_level_callback(log_level: LogLevelOption = None) -> None:
+    def _log_level_callback(ctx: typer.Context, log_level: LogLevelOption = None) -> None:
+        if log_level is None and ctx.parent is not None and "log_level" in ctx.parent.params:
+            return  # the parent command has already applied its own level
         try:
             resolved = resolve_log_level(log_level)
         except ValueError as exc:
-- 
2.43.0


From da2cdffa9987106a5f836a3a4c46a913c799c722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:16 +0000
Subject: [PATCH 61/64] fix: refuse a registration conflicting with a builtin,
 not every later lookup

---
 src/modssc/data_augmentation/registry.py |  4 +++-
 src/modssc/inductive/registry.py         |  6 +++++-
 src/modssc/supervised/registry.py        |  4 +++-
 src/modssc/transductive/registry.py      |  6 +++++-
 src/modssc/utils/registry.py             | 17 ++++++++++++++++-
 5 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/modssc/data_augmentation/registry.py b/src/modssc/data_augmentation/registry.py
index ad430f8..93a8b29 100644
--- a/src/modssc/data_augmentation/registry.py
+++ b/src/modssc/data_augmentation/registry.py
@@ -53,7 +53,9 @@ def register_op(op_id: str) -> Callable[[type[AugmentationOp]], type[Augmentatio
 
     def _decorator(cls: type[AugmentationOp]) -> type[AugmentationOp]:
         existing = _RUNTIME_OPS.get(op_id)
-        if existing is not None and existing is not cls:
+        builtin = _BUILTIN_OPS.get(op_id, ("", ""))[0]
+        taken = builtin and builtin != f"{cls.__module__}:{cls.__qualname__}"
+        if taken or (existing is not None and existing is not cls):
             raise DataAugmentationValidationError(f"Duplicate op_id: {op_id}")
         if not hasattr(cls, "op_id") or not hasattr(cls, "modality"):
             raise DataAugmentationValidationError(
diff --git a/src/modssc/inductive/registry.py b/src/modssc/inductive/registry.py
index 274ae98..b951a7c 100644
--- a/src/modssc/inductive/registry.py
+++ b/src/modssc/inductive/registry.py
@@ -27,7 +27,11 @@ class MethodRef:
 
 
 _REGISTRY: dict[str, MethodRef] = {}
-register_method = make_register_method(registry=_REGISTRY, ref_factory=MethodRef)
+register_method = make_register_method(
+    registry=_REGISTRY,
+    ref_factory=MethodRef,
+    ensure_builtins=lambda: register_builtin_methods(),
+)
 
 
 def register_builtin_methods() -> None:
diff --git a/src/modssc/supervised/registry.py b/src/modssc/supervised/registry.py
index 6608d34..8a63234 100644
--- a/src/modssc/supervised/registry.py
+++ b/src/modssc/supervised/registry.py
@@ -17,6 +17,7 @@ def register_classifier(
     description: str,
     preferred_backends: tuple[str, ...] = ("sklearn", "numpy"),
 ) -> None:
+    ensure_bootstrap()
     if key in _REGISTRY:
         existing = _REGISTRY[key]
         if existing.description != description or existing.preferred_backends != preferred_backends:
@@ -39,6 +40,7 @@ def register_backend(
     supports_gpu: bool = False,
     notes: str = "",
 ) -> None:
+    ensure_bootstrap()
     if classifier_id not in _REGISTRY:
         raise UnknownClassifierError(classifier_id)
     spec = _REGISTRY[classifier_id]
@@ -76,9 +78,9 @@ def ensure_bootstrap() -> None:
     global _BOOTSTRAPPED
     if _BOOTSTRAPPED:
         return
+    _BOOTSTRAPPED = True
     for entry in BUILTIN_CLASSIFIERS:
         _register_builtin_classifier(entry)
-    _BOOTSTRAPPED = True
 
 
 def list_classifiers() -> list[str]:
diff --git a/src/modssc/transductive/registry.py b/src/modssc/transductive/registry.py
index 46c34b4..c46816d 100644
--- a/src/modssc/transductive/registry.py
+++ b/src/modssc/transductive/registry.py
@@ -27,7 +27,11 @@ class MethodRef:
 
 
 _REGISTRY: dict[str, MethodRef] = {}
-register_method = make_register_method(registry=_REGISTRY, ref_factory=MethodRef)
+register_method = make_register_method(
+    registry=_REGISTRY,
+    ref_factory=MethodRef,
+    ensure_builtins=lambda: register_builtin_methods(),
+)
 
 
 def register_builtin_methods() -> None:
diff --git a/src/modssc/utils/registry.py b/src/modssc/utils/registry.py
index 84b750a..2da3629 100644
--- a/src/modssc/utils/registry.py
+++ b/src/modssc/utils/registry.py
@@ -50,13 +50,28 @@ def load_method_class(
     return getattr(module, cls_name)
 
 
-def make_register_method(*, registry: MutableMapping[str, Any], ref_factory: Callable[..., Any]):
+def make_register_method(
+    *,
+    registry: MutableMapping[str, Any],
+    ref_factory: Callable[..., Any],
+    ensure_builtins: Callable[[], None] | None = None,
+):
+    registering_builtins = False
+
     def register_method(
         method_id: str,
         import_path: str,
         *,
         status: MethodStatus = "implemented",
     ) -> None:
+        # Builtins come first: a conflict is refused here, not at every later lookup.
+        nonlocal registering_builtins
+        if ensure_builtins is not None and not registering_builtins:
+            registering_builtins = True
+            try:
+                ensure_builtins()
+            finally:
+                registering_builtins = False
         register_method_ref(
             registry=registry,
             ref_factory=ref_factory,
-- 
2.43.0


From 97103345871b8f2f9a70931e7ef69cc56d517efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:11 +0000
Subject: [PATCH 62/64] fix: hand out copies of the registered classifier
 backends

---
 src/modssc/supervised/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modssc/supervised/types.py b/src/modssc/supervised/types.py
index 2b34ae5..6f50759 100644
--- a/src/modssc/supervised/types.py
+++ b/src/modssc/supervised/types.py
@@ -40,5 +40,5 @@ class ClassifierSpec:
             "key": self.key,
             "description": self.description,
             "preferred_backends": list(self.preferred_backends),
-            "backends": {k: vars(v) for k, v in self.backends.items()},
+            "backends": {k: dict(vars(v)) for k, v in self.backends.items()},
         }
-- 
2.43.0


From 08b48b96eb67ac36734244d8fd6a8a5b83b8fcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:40 +0000
Subject: [PATCH 63/64] fix: let the dataclass errors pass through context
 managers

---
 bench/errors.py                   | 6 +++---
 src/modssc/data_loader/errors.py  | 2 +-
 src/modssc/inductive/errors.py    | 2 +-
 src/modssc/preprocess/errors.py   | 2 +-
 src/modssc/transductive/errors.py | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/bench/errors.py b/bench/errors.py
index e5e4ebf..59129f6 100644
--- a/bench/errors.py
+++ b/bench/errors.py
@@ -6,14 +6,14 @@ from dataclasses import dataclass
 _CODE_RE = re.compile(r"^(E_BENCH_[A-Z0-9_]+):")
 
 
-@dataclass(frozen=True)
+@dataclass(unsafe_hash=True)
 class BenchRuntimeError(RuntimeError):
     code: str
     message: str
 
     def __post_init__(self) -> None:
-        object.__setattr__(self, "code", str(self.code))
-        object.__setattr__(self, "message", str(self.message))
+        self.code = str(self.code)
+        self.message = str(self.message)
         RuntimeError.__init__(self, f"{self.code}: {self.message}")
 
 
diff --git a/src/modssc/data_loader/errors.py b/src/modssc/data_loader/errors.py
index f6aa37b..7f9428f 100644
--- a/src/modssc/data_loader/errors.py
+++ b/src/modssc/data_loader/errors.py
@@ -24,7 +24,7 @@ class ProviderNotFoundError(DataLoaderError):
         super().__init__(f"Unknown provider: {provider!r}")
 
 
-@dataclass(frozen=True)
+@dataclass(unsafe_hash=True)
 class OptionalDependencyError(MissingExtraErrorMessageMixin, DataLoaderError):
     """Raised when an optional dependency (extra) required by a provider is missing."""
 
diff --git a/src/modssc/inductive/errors.py b/src/modssc/inductive/errors.py
index a5cb893..66105ad 100644
--- a/src/modssc/inductive/errors.py
+++ b/src/modssc/inductive/errors.py
@@ -5,7 +5,7 @@ from dataclasses import dataclass
 from modssc.dependencies.errors import PackageOptionalDependencyMessageMixin
 
 
-@dataclass(frozen=True)
+@dataclass(unsafe_hash=True)
 class OptionalDependencyError(PackageOptionalDependencyMessageMixin, ImportError):
     """Raised when an optional dependency (extra) is required but missing."""
 
diff --git a/src/modssc/preprocess/errors.py b/src/modssc/preprocess/errors.py
index f324cb0..feed0cb 100644
--- a/src/modssc/preprocess/errors.py
+++ b/src/modssc/preprocess/errors.py
@@ -17,7 +17,7 @@ class PreprocessCacheError(PreprocessError):
     """Raised when cached artifacts are missing, corrupted, or inconsistent."""
 
 
-@dataclass(frozen=True)
+@dataclass(unsafe_hash=True)
 class OptionalDependencyError(MissingExtraErrorMessageMixin, PreprocessError):
     """Raised when an optional dependency required by a step/model is missing."""
 
diff --git a/src/modssc/transductive/errors.py b/src/modssc/transductive/errors.py
index 26ff7cb..fdcd821 100644
--- a/src/modssc/transductive/errors.py
+++ b/src/modssc/transductive/errors.py
@@ -5,7 +5,7 @@ from dataclasses import dataclass
 from modssc.dependencies.errors import PackageOptionalDependencyMessageMixin
 
 
-@dataclass(frozen=True)
+@dataclass(unsafe_hash=True)
 class OptionalDependencyError(PackageOptionalDependencyMessageMixin, ImportError):
     """Raised when an optional dependency (extra) is required but missing."""
 
-- 
2.43.0


From 1458a9d95bbbf2340106bfed237140c896c6c4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:28 +0000
Subject: [PATCH 64/64] fix: sum repeated edges in the dense adjacency as the
 sparse one does

---
 src/modssc/graph/featurization/ops/adjacency.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modssc/graph/featurization/ops/adjacency.py b/src/modssc/graph/featurization/ops/adjacency.py
index b3ec6a4..db15ec9 100644
--- a/src/modssc/graph/featurization/ops/adjacency.py
+++ b/src/modssc/graph/featurization/ops/adjacency.py
@@ -41,10 +41,10 @@ def adjacency_from_edge_index(
         A = np.zeros((n_nodes, n_nodes), dtype=np.float32)
         if edge_weight is None:
             if src.size:
-                A[src, dst] = 1.0
+                np.add.at(A, (src, dst), np.float32(1.0))
         else:
             data = np.asarray(edge_weight, dtype=np.float32)
-            A[src, dst] = data
+            np.add.at(A, (src, dst), data)
         return A
 
     if format == "csr":
-- 
2.43.0

