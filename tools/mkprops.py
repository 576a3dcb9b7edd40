"""Writes properties.jsonl (kept as code so that the text is easy to review)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe), "hook_needed": hook}})

D = "delayed_image/"
BASE, LEAF, NODES, LAZY = D + "delayed_base.py", D + "delayed_leafs.py", D + "delayed_nodes.py", D + "lazy_loaders.py"
CH, SC, HELP = D + "channel_spec.py", D + "sensorchan_spec.py", D + "helpers.py"

prop("C01", "Using a delayed image never changes the other delayed images around it",
 "Deriving new delayed images from a node, optimizing, preparing, finalizing, validating, evaluating or inspecting it - in any order, any number of times, also when an operation fails half way - leaves every already existing node with the same structure, parameters, reported size, channels and pixels it had before; only `prepare` may fill in metadata that was unknown, and only keyword overrides given to `finalize` may change parameters. "
 "Arrays handed out earlier and arrays or dictionaries handed in by the caller are never modified either.",
 ["histories", "fault_sequences"],
 "all histories of build / derive / optimize / prepare / finalize / evaluate / inspect operations over pools of nodes that share subtrees, including operations aborted by an I/O error",
 "Tests build one pipeline, finalize it once or twice and look at that result; none keeps a pool of nodes with shared children and re-checks all of them after each operation, which is where a rewrite that edits a shared node in place shows.",
 [NODES, LEAF, BASE],
 [("optimize() rewrites copies of nodes (copy.copy) and never its input", NODES + " (optimize / _opt_* methods)"),
  ("per call optimize memo instead of a memo stored on nodes", BASE + ":OptimizeContext")],
 [("meta", "parameters of a node; the dict is shared by shallow copies of that node", BASE + ":DelayedOperation"),
  ("subdata / parts", "children, shared between trees", BASE)],
 ["shape / dsize / channels / nesting() / as_graph() / finalize() of every node in the pool"])

prop("C02", "Threads can evaluate delayed images that share nodes",
 "When several threads prepare, optimize, inspect, derive from and finalize delayed images that share nodes, leaves or files, every call in every thread returns exactly what it returns when the calls run one after another, no call fails because of the interleaving, and the shared nodes end in the same state.",
 ["schedules"],
 "all interleavings (at Python line or bytecode granularity inside the library and around each native I/O call) of 2-4 threads over trees with shared leaves; native GDAL / OpenCV calls are taken as atomic, except that reads of one GDAL dataset may overlap in time",
 "No test starts a thread. The first-use initialisation of the lazily opened dataset, of leaf metadata and of the process wide specification caches is only racy in a window of a few bytecodes.",
 [LEAF, LAZY, NODES, BASE, CH, SC],
 [("check-then-set initialisation that is idempotent", LEAF + ":DelayedLoad._load_reference / _load_metadata"),
  ("memo per optimize call", BASE + ":OptimizeContext"), ("set-once memoised properties", LAZY + ":LazyGDalFrameFile")],
 [("lazy_ref / _ds_cache", "lazily opened dataset shared by all trees over the leaf", LEAF + ", " + LAZY),
  ("FusedChannelSpec._memo", "process wide spec cache", CH)],
 ["return values of every call in every thread"])

prop("C03", "A failing read never turns into wrong pixels",
 "If opening or reading an image file fails at any point - open failure, a read that fails, is cut short or leaves garbage in its buffer, a band or overview that cannot be fetched, a truncated or missing file, an allocation failure - then preparing or finalizing a delayed image either raises an error or returns exactly the pixels and metadata the undamaged file gives. "
 "It never returns zero filled, partial, shifted, lower resolution or NaN substituted data in place of a failed read, no matter how often the failed call is retried.",
 ["fault_sequences", "histories"],
 "all sequences of I/O failures over the opens, header queries and reads issued by prepare / finalize of pipelines over GeoTIFF (plain, tiled, with overviews, with nodata), PNG and ENVI files, including repeated failures that also hit the retry and fallback paths",
 "Tests never make a read fail: the retry, the fallback reader and the fast-path fallback are executed by no test, and silent substitution only shows if the failure hits a particular read of a particular band.",
 [LAZY, LEAF, NODES],
 [("None results of GDAL reads are turned into exceptions", LAZY + ":_gdal_read_kwimage_compatible, LazyGDalFrameFile._dataset_read_as_array"),
  ("fallback reader after a failed read", LAZY + ":LazyGDalFrameFile._compat_gdal_read"),
  ("missing band / overview checks", LAZY + ":LazyGDalFrameFile._read_bands / shape")],
 [("_ds_cache", "open dataset", LAZY)], ["return value or exception of prepare() / finalize() / evaluate()"])

prop("C04", "Delayed images recover as soon as the storage works again",
 "Once an I/O problem is over (reads succeed again, the missing or truncated file is complete), the very next prepare or finalize of the same objects succeeds and gives the right metadata and pixels: no failed attempt leaves a stale handle, a wrong size, channel count or overview count, or any other cached failure behind. "
 "While a file is missing the error says that the file does not exist.",
 ["fault_sequences", "histories"],
 "all histories of prepare / optimize / finalize attempts during any sequence of I/O failures, followed by a fault free attempt on the same node objects",
 "Needs a failure at a particular call followed by a second attempt on the same objects; tests neither inject failures nor retry.",
 [LAZY, LEAF],
 [("caches are only filled after success", LAZY + ":_reload_cache and memoised properties"),
  ("metadata is assigned only after the header was read", LEAF + ":DelayedLoad._load_metadata")],
 [("lazy_ref, _ds_cache, memoised shape / overviews / bands", "state that survives a failed attempt", LEAF + ", " + LAZY)],
 ["first fault free prepare() / finalize() after a failure"])

prop("C05", "An interrupted operation can simply be repeated",
 "If prepare, optimize, finalize, evaluate or building a pipeline is interrupted at any instant by an asynchronous exception (Ctrl-C, timeout, MemoryError), a Ctrl-C reaches the caller and any other such exception either reaches the caller or the call returns the right result; afterwards all existing nodes and the library's process wide caches are intact: repeating the same or any other operation gives the same results as if the interruption had never happened.",
 ["crash_points", "histories"],
 "all positions in the library at which the interpreter delivers asynchronous exceptions (function entry, loop back edges, return of native calls, around each I/O call) during a history of operations, with one or more interruptions per history",
 "Tests never interrupt a call; a half initialised lazily created object or memo entry only appears if the exception lands between two particular statements.",
 [LEAF, LAZY, NODES, BASE, CH, SC],
 [("publish-after-construction of caches and references", LEAF + ":_load_reference, " + LAZY + ":_reload_cache, " + CH + ":FusedChannelSpec.from_spec"),
  ("optimization works on copies", NODES)],
 [("lazy_ref, _ds_cache, FusedChannelSpec._memo", "state published during an operation", "")],
 ["exception seen by the caller; results of later operations"])

prop("C06", "No I/O happens before it is needed",
 "Building, deriving, optimizing, inspecting and transforming delayed images of known size and channels touches no file at all, so it works while the files are missing or the storage fails. "
 "`prepare` opens a file only to read header information, never pixels, and does not touch a file whose size, channel count and overview count are already known.",
 ["histories", "fault_sequences"],
 "all histories of pipeline building, optimization and inspection over leaves with known metadata while every I/O call fails, and all histories of prepare over files with readable headers whose pixel reads fail",
 "Tests run with healthy files in place, so an eager open, stat or pixel read goes unnoticed.",
 [LEAF, NODES, LAZY],
 [("I/O is confined to the lazily created reference", LEAF + ":DelayedLoad._load_reference, " + LAZY + ":LazyGDalFrameFile._ds"),
  ("metadata short cut", LEAF + ":DelayedLoad._load_metadata")],
 [("lazy_ref", "None until I/O is needed", LEAF)], ["recorded I/O at the GDAL / file seam; success while the storage fails"])

prop("C07", "A result depends only on the part of the files it shows",
 "Finalizing a cropped, channel-selected or downscaled delayed image reads only the files and bands that contribute to it and only the pixel window it covers plus a small interpolation margin (from stored overviews instead of full resolution when the whole chain of warps downscales by at least the stored factor), so damaged, missing or failing storage elsewhere - other channels' files, other bands, other tiles - does not affect it. "
 "Each finalize call reads each contributing window of each band at most once while storage is healthy, and reuses the open dataset.",
 ["fault_sequences", "histories"],
 "all crop / channel selection / dequantize / overview / non-nearest scale-and-translate pipelines with known geometry over multi-file concatenations, with read failures, missing files and corrupted tiles placed outside the needed region",
 "Tests compare pixels on healthy files, so losing a pushed-down crop, band selection or overview is invisible (the pixels stay right, everything is read).",
 [NODES, LAZY, LEAF],
 [("crop push-down and fusion", NODES + ":DelayedCrop.optimize"), ("channel selection of parts", NODES + ":DelayedChannelConcat.take_channels"),
  ("overview substitution", NODES + ":DelayedWarp._opt_split_warp_overview"), ("windowed reads", LAZY + ":LazyGDalFrameFile.__getitem__")],
 [], ["recorded windows / bands / files at the GDAL seam; success with damaged remainder"])

prop("C08", "evaluate() freezes the data",
 "After evaluate() returns, the returned node and everything derived from it never touch the underlying files again: it keeps giving the evaluated pixels, size and channels whatever later happens to the files (changed, truncated, deleted, unreadable) or to the nodes it was made from. "
 "If evaluate() itself fails it raises and changes nothing.",
 ["histories", "fault_sequences"],
 "all histories of operations that evaluate some nodes, then change / damage / remove files and fail all I/O, then keep deriving from, optimizing and finalizing the evaluated nodes",
 "Tests evaluate and use the result while the file is unchanged, so a result that is still backed by the file looks the same.",
 [NODES, LEAF],
 [("evaluate finalizes into an in-memory leaf", NODES + ":DelayedImage.evaluate, " + LEAF + ":DelayedIdentity")],
 [("DelayedIdentity.data", "evaluated pixels", LEAF)], ["finalize() of evaluated nodes after file changes; I/O log"])

prop("C09", "Channel and sensor specs do not depend on what the process did before",
 "Parsing, normalizing, condensing, slicing, comparing, combining, sizing, fusing, splitting and path-encoding channel and sensor-channel specs gives a result that depends only on the arguments: never on which specs were handled earlier or in which order, on threads doing the same concurrently, on an interrupted earlier call, on pickling, or on a caller modifying a collection that an earlier query method returned.",
 ["histories", "schedules", "crash_points"],
 "all histories of spec operations over a small shared alphabet of channel / sensor strings, with thread interleavings and interruptions at library lines; oracle is the same operation in a pristine process",
 "Tests call each operation on fresh strings in one fixed order; poisoning of the process wide caches needs a particular earlier call.",
 [CH, SC],
 [("FusedChannelSpec._memo keyed by the spec string", CH + ":FusedChannelSpec.from_spec / from_int"),
  ("memoised methods return values derived from immutable parsed state", CH), ("functools caches", SC + ":normalize_sensor_chan, concise_sensor_chan")],
 [("FusedChannelSpec._memo, memoised methods, functools caches", "process wide spec state", CH + ", " + SC)],
 ["return value of each spec operation compared with a pristine process"])

prop("C10", "Tuning and diagnostic switches never change results",
 "The dataset-level fast read path, GDAL exception mode, the shared dataset-handle cache of any size, optimize tracing, warp debugging and array-event debugging - in any combination, switched at any point between operations, with storage healthy or failing, and with an unwritable diagnostics stream - never change which pixels, shape, dtype and channels a delayed image yields, and never make a healthy operation fail.",
 ["configurations", "histories", "fault_sequences"],
 "all combinations and mid-history switches of the documented module switches, with and without injected I/O failures, over all generated pipelines; a failing operation may raise in any configuration but never returns different data",
 "Tests run with one configuration (all switches off).",
 [LAZY, D + "constants.py", D + "debug_utils.py", NODES],
 [("fast path falls back to the compatible reader", LAZY + ":LazyGDalFrameFile.__getitem__"), ("guarded diagnostics", D + "debug_utils.py, " + NODES)],
 [("GDAL_FAST_PATH, GLOBAL_GDAL_CACHE, TRACE_OPTIMIZE, DEBUG_ARRAY_EVENTS", "switches", D + "constants.py, " + LAZY)],
 ["finalize() results across configurations"])

prop("C11", "Open files are bounded and released",
 "However often nodes are prepared, optimized, finalized, evaluated, interrupted or hit by I/O failures, each file is held open at most once per live leaf over it, repeating a prepare or finalize opens no further files, and once all nodes over a file are garbage collected the process holds no handle on that file.",
 ["histories", "fault_sequences", "crash_points"],
 "all histories of operations, I/O failures and interruptions over pools of nodes that are created and dropped",
 "Leaks need many repetitions or a failure between opening and releasing; tests look at results only.",
 [LAZY, LEAF],
 [("one dataset handle per reference, owned by the leaf", LAZY + ":LazyGDalFrameFile._ds_cache, " + LEAF + ":DelayedLoad.lazy_ref"),
  ("header files are closed", LAZY + ":_read_envi_header")],
 [("_ds_cache", "owns the open dataset", LAZY)], ["open file descriptors of the process; opens at the GDAL seam"])

prop("C12", "Independent delayed images never share or go stale on file data",
 "Delayed images built separately - over different files, or over the same path with different settings, or over a path whose file has since been replaced - never see each other's pixels, metadata or settings: what a freshly built pipeline yields is exactly what its own settings give on the file content at that time, whatever other pipelines did before, failed or were dropped.",
 ["histories", "fault_sequences"],
 "all histories that create, use, fail, drop and recreate pipelines over a small set of paths whose files are replaced (different content, size, dtype, bands, nodata, overviews) or deleted between operations, with default settings",
 "Needs two trees over one path at different times; tests use one file per tree and never replace a file.",
 [LEAF, LAZY],
 [("no cross-instance cache by default (GLOBAL_GDAL_CACHE is off)", LAZY + ":LazyGDalFrameFile._reload_cache"), ("per leaf reference", LEAF)],
 [("lazy_ref, GLOBAL_GDAL_CACHE", "where cross-tree state could live", LEAF + ", " + LAZY)], ["prepare() / finalize() of fresh trees after replacement"])

prop("C13", "The overrides given to finalize always take effect",
 "When finalize is called with parameter overrides (interpolation, antialias, nodata handling, border value), the result is exactly that of a freshly built identical pipeline finalized with those overrides, whatever was prepared, optimized, finalized with other overrides, interrupted or failed on the same nodes before. Overrides stay set on the nodes below, parameters that a call does not override keep the value given last.",
 ["histories", "fault_sequences"],
 "all histories of finalize calls with differing overrides, failures and optimizations over shared nodes",
 "Tests call finalize with an override once on a fresh tree; a reference or memo that keeps the first setting only shows on a second, different request.",
 [BASE, LEAF, NODES, LAZY],
 [("overrides are written to all nested nodes", BASE + ":DelayedOperation._set_nested_params"), ("the shared reference is re-synchronised on each finalize", LEAF + ":DelayedLoad._finalize")],
 [("meta, lazy_ref.nodata_method", "parameters that requests override", LEAF)], ["finalize(**overrides) results"])

prop("C14", "The GDAL, rasterio and spectral readers agree and fail cleanly",
 "For the same file and the same spatial window and band selection, the GDAL, rasterio and spectral lazy readers return the same shape, dtype and pixels (up to the channel axis of a single band image, which the GDAL reader drops), in any order of requests and however often windows were read before; while the file is missing or unreadable every reader that has not opened it yet raises, a read that fails raises, and the same reader object works as soon as the file is back.",
 ["histories", "fault_sequences"],
 "all histories of window / band requests, open and read failures, file removal and restoration over the three readers on GeoTIFF and ENVI files (band, line and pixel interleaved)",
 "The rasterio and spectral readers are hardly tested, never against each other, and never over a sequence of requests with failures.",
 [LAZY],
 [("common index normalisation", LAZY + ":_rectify_slice_dim"), ("existence check before open, handle memoised after success", LAZY + ":LazyRasterIOFrameFile._ds, LazySpectralFrameFile._ds"),
  ("ENVI header resolution", LAZY + ":_read_envi_header, LazyGDalFrameFile._reload_cache")],
 [("_ds / _ds_cache", "opened dataset", LAZY)], ["reader[...] results and exceptions"])

prop("C15", "The dataset-handle cache is a bounded, correct LRU",
 "The bounded mapping used for caching dataset handles never holds more than its configured number of entries after a store completes, always returns the latest value stored under a key, evicts the least recently used entry (a lookup or store counts as use) and only when full - also after an operation was interrupted - and, used as the shared handle cache, never makes a reader return another file's data.",
 ["histories", "crash_points", "configurations"],
 "all histories of store / lookup / miss / delete operations with cache sizes 1-8 against a reference LRU, with interruptions at library lines, and reader histories over more files than cache entries",
 "One doctest with four stores; the cache is disabled by default so no integration test reaches it.",
 [LAZY],
 [("OrderedDict with move_to_end and eviction loop", LAZY + ":CacheDict"), ("lookup before open", LAZY + ":LazyGDalFrameFile._reload_cache")],
 [("CacheDict", "LRU content and order", LAZY), ("GLOBAL_GDAL_CACHE", "optional shared cache", LAZY)], ["keys / values after every operation; data read through the cache"])

prop("C16", "The demo image cache survives crashes and failed writes",
 "After any crash, failed or short write, full disk or deletion at any point while the demo image file is being generated, the next request for the demo reader regenerates it when needed and always yields a reader over a complete, correct file of the requested size; a complete file is reused without being rewritten.",
 ["crash_points", "fault_sequences", "histories"],
 "all crash points (library lines and writes) and write failures during sequences of demo requests with different sizes, with only the files surviving each crash",
 "Tests call it with a working disk and an existing cache.",
 [LAZY],
 [("completion stamp written after the product", LAZY + ":LazyGDalFrameFile.demo")],
 [("cache stamp and product file", "durable state", LAZY)], ["reader returned by the next demo() call"])

prop("C17", "Results are the same in every process",
 "The same program on the same files gives the same results in every process: sizes, channels and their order, the structure of derived and optimized trees, transforms, pixels, text renderings, spec algebra results and encoded path names do not depend on the hash seed, on memory addresses, on what was allocated or collected before, on the working directory, locale, terminal width or time zone. "
 "A channel spec or sensor-channel spec that is pickled and sent to another process, also after it was used, answers there exactly what it would answer at home.",
 ["configurations", "histories"],
 "all pipelines, operation sequences and spec operations, and all pairs of processes that differ in hash seed, address space layout, allocation history, garbage collection, locale, time zone and working directory",
 "A test process has one hash seed and one address layout and compares with literals that hold for any order of small sets; differences show only between two processes, e.g. a training job and its data loader workers.",
 [NODES, LEAF, BASE, CH, SC],
 [("leafs are identified by object identity while transforms are computed", NODES + ":get_transform_from, undo_warps, leafs"),
  ("ordered sets for channel algebra", CH + ":FusedChannelSpec, ChannelSpec"), ("hash of the normalized spec in path names", CH + ":path_sanitize")],
 [("OptimizeContext memo", "keyed by id() of nodes", BASE)], ["every result, compared between processes"])

prop("C18", "Delayed images hold no pixels, and what is dropped is freed",
 "Between operations a delayed image keeps no pixels in memory except those of in-memory leafs it was built from (and results of `evaluate`): no operation, finished, failed or interrupted, leaves image buffers behind; repeating an operation any number of times does not make the process grow; and once the user drops the delayed images and results, nodes, readers and buffers are all freed, without anything at module level keeping them.",
 ["histories", "fault_sequences", "crash_points"],
 "all histories of derive / optimize / prepare / finalize / evaluate / inspect operations with storage failures and interruptions, with every allocation traced, followed by repetitions and by dropping everything",
 "Tests run each pipeline once or twice in a process that ends; memory that stays alive changes no result.",
 [NODES, LEAF, BASE, LAZY],
 [("per call optimize memo, which dies with the call", BASE + ":OptimizeContext"), ("leafs read on demand and do not keep what they read", LEAF + ":DelayedLoad._finalize"),
  ("readers keep a handle, not pixels", LAZY + ":LazyGDalFrameFile.__getitem__")],
 [("meta", "parameters only, never pixels", BASE + ":DelayedOperation"), ("GLOBAL_GDAL_CACHE", "handles, bounded", LAZY)],
 ["live numpy buffers after every operation; process growth under repetition; live nodes and readers after dropping"])

prop("C19", "The process and the storage are left as they were found",
 "Operations on delayed images, readers and channel specs only read: no file or directory is created, changed or removed (no side files next to images, no temporary files), nothing is printed by an operation that succeeds, and every process-wide setting that the caller may have configured - numpy error state and print options, warning filters, random states, working directory, environment, umask, signal handlers, garbage collector, recursion limit, logging, locale, OpenCV threads, GDAL exception mode, options, error handler and cache limit, functions of other packages - is after each operation what it was before, whether the operation finished, failed or was interrupted, and whatever threads ran at the same time.",
 ["histories", "fault_sequences", "crash_points", "schedules", "configurations"],
 "all histories of pipeline, reader and spec operations with storage failures, interruptions and thread schedules, in callers with any configuration",
 "Tests look at results; a setting that leaks after a failure, an interruption or overlapping threads only shows in unrelated code much later.",
 [NODES, LEAF, BASE, LAZY, HELP],
 [("gdal is imported without changing its mode", LAZY + ":_import_gdal"), ("files are opened read-only", LAZY + ":LazyGDalFrameFile._reload_cache")],
 [("process-wide settings", "numpy, GDAL, OpenCV, warnings, ...", LAZY)], ["the settings and the directory listing after every operation"])

# ---- not decided by this technique -------------------------------------
def na(id, title, statement, text, why, files, mech):
    prop(id, title, statement, ["inputs", "programs"], text, why, files, mech)

na("C30", "Optimizing a pipeline does not change the image",
 "For every pipeline of crops, affine warps, overviews, dequantization, channel selection and concatenation, the optimized pipeline reports the same size and channels and yields the same pixels as the unoptimized one up to the interpolation tolerance near borders.",
 "all pipelines and parameters", "Tests sample a few dozen pipelines.", [NODES], [("rewrite rules", NODES + ":_opt_*")])
na("C31", "Lazy results equal eager image operations",
 "Finalizing a pipeline equals applying the corresponding eager image operations (array slicing, affine warp, resizing, concatenation) step by step to the loaded image.",
 "all pipelines, images and parameters", "Tests sample a few cases.", [NODES, LEAF], [("_finalize methods", NODES)])
na("C32", "Transforms between views are consistent with the pixels",
 "The transform reported between two views of the same leaf maps pixel coordinates of one to the other, composes along chains and inverts, and undoing warps returns views aligned with the leaf.",
 "all chains of spatial operations", "Tests sample a few chains.", [NODES], [("get_transform_from, get_transform_from_leaf, undo_warps", NODES)])
na("C33", "Channel spec algebra obeys its laws",
 "Normalizing and condensing specs are idempotent and mutually inverse up to normal form; union, intersection, difference, indexing, fusing and splitting behave like the ordered-set operations on the expanded channel lists.",
 "all specs", "Tests sample some strings.", [CH], [("FusedChannelSpec, ChannelSpec", CH)])
na("C34", "Sensor-channel grammar round trips",
 "Parsing, normalizing, condensing and re-parsing any grammatical sensor-channel spec preserves the set of (sensor, channel stream) pairs.",
 "all grammatical specs", "Tests sample some strings.", [SC], [("grammar and transformer", SC)])
na("C35", "Dequantization inverts quantization",
 "Quantizing float data and dequantizing it reproduces the data within one quantization step and preserves nodata exactly.",
 "all arrays and quantization parameters", "Tests sample a few arrays.", [HELP], [("quantize_float01, dequantize", HELP)])
na("C36", "Path-safe spec names are safe and bounded",
 "The path encoding of any spec contains only path-safe characters, never exceeds the requested length and is deterministic.",
 "all specs and lengths", "Tests sample some strings.", [CH], [("path_sanitize", CH)])
na("C37", "Network text rendering shows the whole graph",
 "The text rendering of a pipeline graph lists every node and edge exactly once, for every graph.",
 "all graphs", "Doctests show some graphs.", [D + "util/util_network_text.py"], [("write_network_text", D + "util/util_network_text.py")])

if __name__ == "__main__":
    import os
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
