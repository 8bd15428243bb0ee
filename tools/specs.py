"""What each check runs. cases/limit are per shard-set; limit is wall seconds per shard."""
M = "vf_main.cpp"

def job(name, variant, src, q, t, **kw):
    d = dict(name=name, variant=variant, sources=[src, M], quick=dict(cases=q[0], limit=q[1]),
             thorough=dict(cases=t[0], limit=t[1], **({"shards": t[2]} if len(t) > 2 else {})))
    d.update(kw)
    return d

BIG = 10**9
WRAP = ["-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock"]
SPECS = {
 "P01": dict(level="exploration", min_cases=100,
   rule="Each case draws a backend, thread count and 1-4 layers (class x voxel type x windows x block order x mapping x metadata), "
        "writes them, re-reads and compares everything bit for bit; non-trivial when some layer has more than one voxel; distinct by full description.",
   jobs=[job("rt", "asan", "p01_roundtrip.cpp", (BIG, 35), (BIG, 600)),
         job("large", "plain", "p01_large.cpp", (0, 0), (4, 800, 2), tier="thorough")]),
 "P02": dict(level="exploration", min_cases=100,
   rule="Each case writes 2-7 layers to shared partitions with mappings drawn from a pool of near-identical variants (and mutates "
        "mappings of already written fields), then matches each layer read back with the mapping it was written with; distinct by description and transform.",
   jobs=[job("map", "asan", "p02_mapping_io.cpp", (BIG, 30), (BIG, 600))]),
 "P03": dict(level="exploration", min_cases=50,
   rule="Each case writes 1-3 files (possibly through reused file objects and different encodings) with 0-9 layers sharing partition and layer names, "
        "and checks every listing and lookup against the list of what was written; non-trivial when a layer exists.",
   jobs=[job("list", "asan", "p03_listing.cpp", (BIG, 30), (BIG, 600))]),
 "P11": dict(level="exploration", min_cases=500,
   rule="Each case runs a random history of resizes, clears, block operations and writes on a dense, sparse, staggered or empty field of one voxel type, "
        "comparing every voxel and query with a plain shadow map after every step; distinct by the full history.",
   jobs=[job("vox", "asan", "p11_voxels.cpp", (BIG, 30), (BIG, 600))]),
 "P12": dict(level="exploration", min_cases=500,
   rule="Each case builds one field (dense, sparse, staggered, multi-resolution, proxy) and walks random ranges (whole, sub-window, empty) with each iterator form, "
        "checking position, order, value and count of every visit and the effect of writes; distinct by field, window and random stream.",
   jobs=[job("iter", "asan", "p12_iterators.cpp", (BIG, 30), (BIG, 600))]),
 "P13": dict(level="exploration", min_cases=500,
   rule="Each case copies one field (any kind and voxel type) through one copy path (constructor, clone, assignment over fresh/used/self, copyFrom, matchDefinition), compares full snapshots, "
        "then applies 2-8 random mutations to either side and checks the other side's snapshot after each, and destroys one side; distinct by field, path and mutation history.",
   jobs=[job("copy", "asan", "p13_copies.cpp", (BIG, 30), (BIG, 600))]),
 "P14": dict(level="exploration", min_cases=500,
   rule="Each case runs a random history of transforms, samples, resets, depth distributions, extents changes and clones on one mapping (or exercises Curve, bounds helpers and coordinate-system builders) "
        "and compares every conversion, matrix, voxel size and equality test with a long-double reference after every step; distinct by history.",
   jobs=[job("map", "asan", "p14_mappings.cpp", (BIG, 30), (BIG, 600))]),
 "P04": dict(level="exploration", min_cases=100,
   rule="Each case writes 1-2 files (either encoding) with 1-3 sparse layers, loads them fully and on demand, and runs 10-60 random operations (direct, swept and iterated reads, live/copied/abandoned "
        "iterators, four interpolators, block queries, field copies and assignments, resize/clear, re-writing, flush, limit changes, destruction) over the live on-demand fields, comparing with the written model "
        "and the loaded field; finally no loaded block or open file may be left. Distinct by full history.",
   jobs=[job("dyn", "asan", "p04_dynamic.cpp", (BIG, 35), (BIG, 600))]),
 "P05": dict(level="exploration", min_cases=100,
   rule="Each case opens 1-4 sparse layers of two files on demand under a random limit (0 to unlimited) and runs 10-70 random operations; every single voxel access is monitored through an allocator hook "
        "(loads exactly when absent, evicts only when room is needed, live bytes within the limit or what iterators pin plus one block), and after every operation all statistics are compared with the counts. Distinct by full history.",
   jobs=[job("cache", "asan", "p05_cache.cpp", (BIG, 30), (BIG, 600))]),
 "P06": dict(level="exploration", min_cases=50,
   rule="Each case writes 1-2 files with 1-2 sparse layers (either encoding), loads them on demand under a random limit, and lets 2-8 threads read (values, iterators, interpolation, copies), one possibly re-opening the "
        "file and one possibly flushing and querying the cache, with random delays at lock operations; every value is compared with the model. Distinct by case stream; interleavings are counted as distinct orders of lock acquisitions.",
   assumptions=["schedules are sampled; race detection is ThreadSanitizer's happens-before analysis of the executed schedules"],
   jobs=[job("race", "tsan", "p06_concurrent.cpp", (BIG, 22), (BIG, 600), link=WRAP),
         job("mem", "asan", "p06_concurrent.cpp", (BIG, 15), (BIG, 400), link=WRAP)]),
 "P20": dict(level="exploration", min_cases=100,
   rule="Each case lets 2-8 threads copy, cast and drop shared objects (meeting at each object so that the last drops coincide), or look up, insert, replace and release cached fields, with destructor counts and field identity checked; "
        "or runs a sequential cache history against an exact model. Distinct by case stream; interleavings are distinct orders of lock acquisitions.",
   assumptions=["schedules are sampled; race detection is ThreadSanitizer's happens-before analysis of the executed schedules"],
   jobs=[job("race", "tsan", "p20_shared.cpp", (BIG, 15), (BIG, 500), link=WRAP),
         job("mem", "asan", "p20_shared.cpp", (BIG, 20), (BIG, 500), link=WRAP)]),
 "P21": dict(level="exploration", min_cases=200,
   rule="Each case casts one object (every field, mapping, IO, interpolator and user-defined class, every voxel type, original or clone) to every type and compares with the language's own dynamic_cast, "
        "or runs a registration history on a class factory against a first-wins model, or lets 2-8 threads register and create at once; every process starts with six threads racing for the factory while plugins are on the search path. "
        "Distinct by object class or by the registrations made.",
   aux=[dict(env="VF_PLUGIN1", variant="asan", sources=["p21_plugin.cpp"], link=["-shared", "-w"], defs=["-DPLUG=1"], nolib=True),
        dict(env="VF_PLUGIN2", variant="asan", sources=["p21_plugin.cpp"], link=["-shared", "-w"], defs=["-DPLUG=2"], nolib=True)],
   jobs=[job("types", "asan", "p21_types.cpp", (BIG, 15), (BIG, 200), link=WRAP),
         job("race", "tsan", "p21_types.cpp", (BIG, 15), (BIG, 300), link=WRAP, env=dict(VF_PLUGIN1=""))]),
 "P15": dict(level="exploration", min_cases=500,
   rule="Each case builds one field (dense and sparse with the same voxels, staggered, multi-resolution, proxy, procedural) and samples it at 40-80 points (inside, at voxel and face centres, on voxel and block borders and one ulp beside them, outside, far outside, infinite) "
        "with every interpolator that accepts it, comparing with a double-precision model of the definition; distinct by field and random stream.",
   jobs=[job("interp", "asan", "p15_interp.cpp", (BIG, 30), (BIG, 600))]),
 "P16": dict(level="exploration", min_cases=100,
   rule="Each case builds a dense and a sparse field with the same voxels (any resolution, voxel type, fill, block order, mapping and metadata), builds both pyramids with one of six filters, a random minimum size, offset and thread count, "
        "and compares every voxel of every level with a double-precision filter over the finer level, plus level count, resolutions, mappings, metadata and agreement; non-trivial when there is more than one level; distinct by description and random stream.",
   jobs=[job("mip", "asan", "p16_mip.cpp", (BIG, 30), (BIG, 600))]),
 "P18": dict(level="exploration", min_cases=200,
   rule="Each case fills a dense and a sparse field (voxel type, window, block size, background, fill pattern, values up to the type's limits, mapping, metadata) and resamples both to a random resolution with one of six filters "
        "of random width, into fresh or used targets; every voxel is compared with a double-precision model of the filter definition (min/max exactly, samples on a filter border bracketed), plus windows, mapping, metadata, "
        "the untouched source and dense/sparse agreement. Distinct by description and stream.",
   jobs=[job("resample", "asan", "p18_resample.cpp", (BIG, 30), (BIG, 600))]),
 "P23": dict(level="exploration", min_cases=200,
   rule="Each case makes the minimum and maximum companions of one dense or sparse field (or of a pyramid's finest level) of random type, size, fill, background, mapping and resolution factor with 1-4 threads; at every level every source "
        "voxel is looked up through the mappings and must lie within the bounds, and every bound must be bracketed by the voxels in its footprint and equal some source value. Distinct by description and stream.",
   jobs=[job("minmax", "asan", "p23_minmax.cpp", (BIG, 30), (BIG, 600))]),
 "P17": dict(level="exploration", min_cases=100,
   rule="Each case writes 1-3 multi-resolution layers (dense or sparse, any voxel type, 1-5 levels, offset, mapping, metadata; either encoding), reads them lazily (file object kept, closed or destroyed; sparse levels on demand or not) and either runs a random history of "
        "accesses, copies, failures (file removed or replaced, then put back) and mapping changes against a model of which levels are loaded, or lets 2-8 threads touch, copy and measure the fields at once; every level is compared with what was written and must be loaded exactly once. "
        "Distinct by description and stream; interleavings are distinct orders of lock acquisitions.",
   assumptions=["schedules are sampled; race detection is ThreadSanitizer's happens-before analysis of the executed schedules"],
   jobs=[job("race", "tsan", "p17_lazy.cpp", (BIG, 22), (BIG, 500), link=WRAP),
         job("mem", "asan", "p17_lazy.cpp", (BIG, 18), (BIG, 400), link=WRAP)]),
 "P22": dict(level="exploration", min_cases=200,
   rule="Each case assembles one scalar or vector field group of 0-12 members (dense, sparse and their pyramids, every voxel type, any window, matrix or frustum mappings of both handednesses, object transforms, value remapping, bounds optimisation) "
        "through the constructor, several setup calls or a file, and compares sums and averages at 24 points of three spot sizes, batches, bounds, membership, ray intervals found by scanning the ray, and value ranges (plain and pre-filtered) with the members' own; "
        "some groups are also sampled by 2-4 threads at once. Distinct by description and stream.",
   jobs=[job("group", "asan", "p22_group.cpp", (BIG, 30), (BIG, 600), link=WRAP),
         job("race", "tsan", "p22_group.cpp", (BIG, 10), (BIG, 200), link=WRAP)]),
 "P19": dict(level="exploration", min_cases=500,
   rule="Each case converts one random field (any window, vector type, dense or sparse cells, null, rotated, scaled, moving or frustum mapping) to or from a staggered one, into fresh or used targets, and compares every face or cell with the mean, "
        "rotated by the mapping's known rotation; uniform fields go both ways; windows, mapping, component sizes and face iteration are checked. Distinct by description and stream.",
   jobs=[job("mac", "asan", "p19_mac.cpp", (BIG, 20), (BIG, 300))]),
 "P07": dict(level="exploration", min_cases=50,
   rule="Each case writes one sparse field or pyramid (any voxel type, block order, density, in memory or on demand under a random limit) with 2-3 thread counts (0-40) and compares the files byte by byte, reads it back with several counts, "
        "or builds a pyramid or min/max companions (dense, sparse, on demand) with several counts and compares all levels bit by bit, with random delays injected at the workers' lock operations. Distinct by description; interleavings are distinct orders of lock acquisitions.",
   assumptions=["schedules are sampled; race detection is ThreadSanitizer's happens-before analysis of the executed schedules"],
   jobs=[job("race", "tsan", "p07_threads.cpp", (BIG, 22), (BIG, 500), link=WRAP),
         job("mem", "asan", "p07_threads.cpp", (BIG, 15), (BIG, 400), link=WRAP)]),
 "P08": dict(level="fault_enumeration", min_cases=100,
   rule="Each case writes one random file (1-3 layers of any class and type, mapping, metadata; either encoding; 1-6 threads) once without and 3-8 times with a fault: a file size limit, the n-th write failing once or for good (ENOSPC, EIO, EDQUOT), "
        "a short write followed by failures, every write short, a failing truncation, a failing close that loses data; or writes an on-demand field whose source was cut or removed; or writes to refused targets. When no step reports a failure the file must hold everything; after a failure the library (and the same object) must write a complete file. Distinct by contents and fault.",
   jobs=[job("faults", "asan", "p08_faults.cpp", (BIG, 35), (BIG, 600))]),
 "P09": dict(level="fault_enumeration", min_cases=50,
   rule="Each case writes one random file (1-4 layers of any class and type, mapping, metadata; either encoding; 1-6 threads; fresh or over an older file) while every call that reaches the file is recorded, then opens and reads (eagerly or on demand) the file that every "
        "prefix of the calls leaves (sampled, with all step boundaries and the last 25 calls, when there are more than the budget), with the interrupted call whole or partly done; whatever is opened may only yield layers, names and metadata exactly as written. Distinct by contents and number of calls.",
   assumptions=["a crash keeps a prefix of the bytes handed to the operating system, in order (the process dies; the machine does not lose cached writes)"],
   jobs=[job("crash", "asan", "p09_crash.cpp", (BIG, 35), (BIG, 600))]),
 "P10": dict(level="exploration", min_cases=20,
   rule="Each case writes a random valid file (1-3 layers of any class and type) and damages it 40-120 times: Ogawa files by changing positions, counts, sizes, payload values, names and child links found by parsing the file, or bytes, lengths and splices; "
        "HDF5 files by changing, retyping, deleting, relinking attributes, groups and datasets. Every layer of the result is listed, read as every type (eagerly or on demand, 1-4 threads), sampled, iterated, its levels loaded and its mapping evaluated, with memory and time metered; "
        "intact files are read in between. Distinct by contents and damage.",
   assumptions=["for the HDF5 encoding the container structure is sound (the HDF5 library parses it); groups, attributes and datasets are arbitrary"],
   jobs=[job("hostile", "asan", "p10_hostile.cpp", (BIG, 40), (BIG, 700))]),
 "P24": dict(level="exploration", min_cases=300,
   rule="Each case matches 60 random name/attribute pairs against random pattern lists (literal, blurred with * ? and bracket sets, name:attribute forms, exclusions, empty entries; as list and as text; both flags) with an independent matcher, "
        "or expands 60 random sequence specifications (well-formed, damaged, leading zeros, numbers near and beyond the integer range, existing files) with an independent expander. Distinct by strings.",
   jobs=[job("patterns", "asan", "p24_patterns.cpp", (BIG, 15), (BIG, 200))]),
 "P25": dict(level="exploration", min_cases=150,
   rule="Each case generates one to four input files (any layer kinds, types, mappings, encodings, colliding names), runs the real sanitized f3dmerge, f3dmakemip, f3dinfo or f3dsample with random options, patterns and ways of giving the inputs, "
        "and compares the output file (or listing) and exit status with a model of the request; faults: missing, foreign and damaged inputs, unwritable outputs, storage that is full after n bytes, wrong usage. Distinct by description; non-trivial when something was selected or refused.",
   aux=[dict(env="VF_" + e, variant="asan", app=a) for e, a in (("MERGE", "f3dmerge"), ("MIP", "f3dmakemip"), ("INFO", "f3dinfo"), ("SAMPLE", "f3dsample"))],
   jobs=[job("tools", "asan", "p25_tools.cpp", (BIG, 30), (BIG, 900))]),
 "P26": dict(level="exploration", min_cases=40,
   rule="Each case makes 2-4 files in both encodings and lets 2-8 threads write, list, read, keep open and fail to open files of their own or the same ones at once, with delays injected around every lock; every field read is compared with the written one, during and after. "
        "Distinct by the files made and the random stream; interleavings are distinct orders of lock acquisitions.",
   assumptions=["schedules are sampled; race detection is ThreadSanitizer's happens-before analysis of the executed schedules", "the HDF5 library itself is not instrumented"],
   jobs=[job("race", "tsan", "p26_files.cpp", (BIG, 20), (BIG, 600), link=WRAP),
         job("mem", "asan", "p26_files.cpp", (BIG, 20), (BIG, 500), link=WRAP)]),
 "P27": dict(level="exploration", min_cases=60,
   rule="Each case lets a child process register field and mapping classes of its own, write 1-6 layers of those, of unregistered and of built-in classes (with IO that refuses, throws or gives something else in some cases) in either encoding, and compare every field read back with the written one; the parent, which knows none of the classes, reads the same file and compares what it should be able to read. "
        "Distinct by the file made.",
   assumptions=["the custom classes are those of the harness; their IO stores voxels through the library's dense IO"],
   jobs=[job("mem", "asan", "p27_custom.cpp", (BIG, 25), (BIG, 500)),
         job("plain", "plain", "p27_custom.cpp", (BIG, 10), (BIG, 200))]),
 "P28": dict(level="exploration", min_cases=100,
   rule="Each case repeats one random history six times - writing and reading back a random file (either encoding, 1-4 threads, with or without on-demand loading and a memory limit, proxies, wrong types, absent names), the same with a failing device or with a damaged file, or in-memory work on fields (copies, resizing, pyramids, resampling, conversions) - and compares the bytes, file descriptors, threads and HDF5 handles in use after the last four. Distinct by history.",
   jobs=[job("leaks", "asan", "p28_leaks.cpp", (BIG, 30), (BIG, 500))]),
}
