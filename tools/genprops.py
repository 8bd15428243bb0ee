#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list. Run by hand after editing."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from specs import SPECS

P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique="", level="exploration", note="", hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, technique=technique, level=level, note=note, hook=hook))

prop("P01", "Written fields read back unchanged",
 "Whatever scalar or vector field of a file-supported kind (dense, sparse, multi-resolution dense and sparse, and staggered fields in the HDF5 encoding) is written, "
 "reading it back under the same voxel type yields the same kind of field with the same extents, data window, per-voxel values (bit for bit), name, attribute, layer metadata, "
 "block layout, block allocation, per-block background values and grid staggering. "
 "This holds for both file encodings, every storable voxel type, every window (including empty-origin, negative, single-voxel and data windows larger or smaller than the extents) and any number of IO threads.",
 ["inputs", "configurations"],
 "All fields (class, voxel type, windows, block orders, values including NaN/Inf/denormals, metadata) x both encodings x IO thread counts.",
 "The unit tests round-trip a handful of small float fields with origin-based windows in one thread.",
 ["src/DenseFieldIO.cpp", "src/SparseFieldIO.cpp", "src/MIPFieldIO.cpp", "src/MACFieldIO.cpp", "src/Field3DFile.cpp", "src/Field3DFileHDF5.cpp", "export/Field3DFile.h", "export/Field3DFileHDF5.h", "src/OgIGroup.cpp"],
 [("DenseFieldIO::write/read", "src/DenseFieldIO.cpp"), ("SparseFieldIO writeInternal/readData", "src/SparseFieldIO.cpp"), ("MIPFieldIO", "src/MIPFieldIO.cpp"), ("MACFieldIO", "src/MACFieldIO.cpp"), ("writeField/readField", "src/Field3DFile.cpp")],
 observe=["Field3DInputFile::readScalarLayers/readVectorLayers results"],
 technique="differential round-trip monitor over generated fields, under ASan+UBSan",
 note="Random generation from a model of the written field; every voxel compared bitwise; sanitizers abort on any memory or UB error during IO.")

prop("P02", "Layers come back with the mapping they were written with",
 "Each layer read from a file carries the mapping it had when it was written: the same kind, the same transform at every time sample (values and times), the same depth distribution, the same voxel size and the same extents. "
 "Layers written under one partition name whose mappings differ in any respect beyond floating-point noise never end up sharing a mapping, and changing a field's mapping after it was written affects neither what was written nor how later layers are stored.",
 ["inputs", "histories"],
 "All mappings (null, matrix, frustum; any number of time samples) x all sequences of layers sharing partition names x later mutations of the mappings.",
 "Tests write one matrix mapping per file and never read frustum, time-varying or near-identical mappings back.",
 ["src/FieldMappingIO.cpp", "src/FieldMapping.cpp", "src/Field3DFile.cpp", "export/Field3DFileHDF5.h", "export/Curve.h"],
 [("MatrixFieldMappingIO, FrustumFieldMappingIO, NullFieldMappingIO", "src/FieldMappingIO.cpp"), ("isIdentical", "src/FieldMapping.cpp"), ("intPartitionName/createNewPartition", "src/Field3DFile.cpp")],
 observe=["FieldMapping accessors of the layers read back"],
 technique="model-based monitor over write histories with mutated mappings, under ASan+UBSan",
 note="Expected mapping cloned at write time, compared exactly (samples, probes at several times, voxel sizes).")

prop("P03", "File listings and lookups match exactly what was written",
 "After opening a file, the listed partitions, the listed layers of each partition, and the layers found by layer name, by partition and layer name, or without a name are exactly those written, each once and with its own content, even when names are shared between partitions, between layers of one partition, or between scalar and vector layers. "
 "Proxies read without voxel data report the same windows, mapping, metadata, name and attribute as the full layers; global metadata and the reported encoding are those of the open file. "
 "Reusing a file object for another file, in either encoding, behaves like a fresh object.",
 ["inputs", "histories"],
 "All sequences of layer writes (names repeated in any combination) x encodings x sequences of create/open calls on the same object.",
 "Tests look up one or two layers with distinct names and never reuse a file object or mix encodings.",
 ["src/Field3DFile.cpp", "src/Field3DFileHDF5.cpp", "export/Field3DFile.h", "export/Field3DFileHDF5.h", "src/OgIGroup.cpp", "src/FieldMetadata.cpp"],
 [("getPartitionNames/getScalarLayerNames/getVectorLayerNames", "src/Field3DFile.cpp"), ("readLayers", "export/Field3DFile.h"), ("readProxyLayer", "src/Field3DFile.cpp"), ("open/create", "src/Field3DFile.cpp")],
 observe=["listing and lookup results of Field3DInputFile"],
 technique="model-based monitor of listings and lookups over write histories, under ASan+UBSan",
 note="The list of writes is the model; each listing and each lookup is compared with it.")

prop("P04", "Loading sparse blocks on demand never changes what is read",
 "With on-demand loading of sparse fields enabled, every voxel read through any access path (direct access, iterators, interpolation, copies, min/max block values) returns the same value as with the file loaded completely, for any access order, any memory limit - however small - and both encodings. "
 "Reading never crashes, deadlocks or loops, and closing the file or destroying fields in any order leaves no dangling state.",
 ["inputs", "histories", "configurations"],
 "All sparse files x all access sequences x all cache limits x encodings x lifetimes of files and fields.",
 "The unit tests read one small file with the cache large enough and check few voxels.",
 ["src/SparseFile.cpp", "export/SparseFile.h", "export/SparseField.h", "src/SparseFieldIO.cpp", "export/SparseDataReader.h"],
 [("SparseFileManager::activateBlock/deallocateBlocks", "export/SparseFile.h"), ("SparseField::value/fastValue/const_iterator", "export/SparseField.h"), ("Reference::loadBlock", "src/SparseFile.cpp")],
 observe=["values returned by reads of dynamically loaded fields"],
 technique="differential monitor against the fully loaded field, random access histories, under ASan+UBSan",
 note="Differential oracle against both the generator's model and a fully loaded copy.")

prop("P05", "The block cache respects its memory limit and counts correctly",
 "While sparse blocks are loaded on demand under a memory limit, the block memory held at any quiescent moment never exceeds the limit - apart from blocks that live iterators stand on and the one block being accessed -, blocks are evicted only when room is needed, and memory is returned when fields are destroyed or the cache is flushed. "
 "The reported statistics (blocks in memory, block loads, allocated blocks, bytes used, resets) agree with what actually happened, and evicted blocks are loaded again when needed.",
 ["histories", "configurations"],
 "All access histories over any number of on-demand fields x memory limits x flushes and statistics resets.",
 "No test looks at the statistics under pressure or measures memory.",
 ["src/SparseFile.cpp", "export/SparseFile.h", "export/SparseField.h"],
 [("deallocateBlocks/addBlockToCache/flushCache/statistics", "src/SparseFile.cpp"), ("activateBlock", "export/SparseFile.h")],
 observe=["SparseFileManager statistics", "allocator byte counts"],
 technique="online budget/conservation monitor over cache histories with allocator accounting, under ASan",
 note="An independent model of loads and evictions plus the sanitizer allocator's live-byte count.")

prop("P06", "Concurrent readers of on-demand sparse fields are safe and exact",
 "Any number of threads may read voxels of the same or different on-demand sparse fields at the same time, with any memory limit, in both encodings, through any read path: every read returns the stored value, and there is no data race, crash, deadlock or use of freed memory, also while other threads open, copy and destroy on-demand fields, flush the cache or query its statistics.",
 ["schedules", "inputs", "configurations"],
 "All interleavings of reading threads x access patterns x cache limits x encodings.",
 "The tests are single-threaded.",
 ["export/SparseFile.h", "src/SparseFile.cpp", "export/SparseField.h", "src/SparseFieldIO.cpp", "export/RefCount.h"],
 [("activateBlock/incBlockRef/decBlockRef", "export/SparseFile.h"), ("deallocateBlocks", "src/SparseFile.cpp")],
 observe=["read values", "race and memory reports"],
 technique="TSan and ASan stress of concurrent readers with injected lock delays; values checked online",
 note="Schedules are sampled with delay injection at lock operations, not enumerated.")

prop("P07", "The number of threads never changes results",
 "Every operation that uses worker threads (file reading and writing, resampling, multi-resolution generation, min/max generation) terminates and produces bit-identical results for every thread count - the same failure, when a file is damaged -, without data races.",
 ["schedules", "inputs", "configurations"],
 "All thread counts and interleavings x inputs of every multi-threaded operation.",
 "Tests run one configuration and compare nothing between thread counts.",
 ["src/SparseFieldIO.cpp", "export/MIPUtil.h", "src/MIPUtil.cpp", "src/MinMaxUtil.cpp", "export/MinMaxUtil.h", "src/InitIO.cpp", "src/DenseFieldIO.cpp"],
 [("ReadThread/WriteThread block operators", "src/SparseFieldIO.cpp"), ("ComputationThread/MIPSeparableThreadOp", "export/MIPUtil.h"), ("MinMax thread ops", "export/MinMaxUtil.h"), ("numIOThreads", "src/InitIO.cpp")],
 observe=["outputs at different thread counts", "race reports"],
 technique="differential monitor between thread counts plus TSan stress with injected delays",
 note="Each case runs an operation with several thread counts and compares bitwise; TSan job watches for races.")

prop("P08", "A write that fails is reported",
 "When the storage runs out or refuses data at any point while a file is created, written or closed, the library reports it by a false result or an exception, or the complete file can be read back correctly afterwards. "
 "It never reports success for every step while the file's content is missing or wrong, and it never crashes or hangs.",
 ["fault_sequences", "inputs"],
 "All points at which the file system stops accepting data x files x encodings.",
 "No test injects a write fault.",
 ["src/OStream.cpp", "src/OArchive.cpp", "src/OGroup.cpp", "src/Field3DFile.cpp", "export/Field3DFileHDF5.h", "src/SparseFieldIO.cpp", "src/DenseFieldIO.cpp", "src/MACFieldIO.cpp", "src/MIPFieldIO.cpp"],
 [("writeLayer/close", "src/Field3DFile.cpp"), ("OStream write", "src/OStream.cpp")],
 observe=["return values and exceptions of the write API", "content of the resulting file"],
 technique="fault enumeration by file-size limits with a readback oracle, under ASan+UBSan", level="fault_enumeration",
 note="The limit point sweeps the file length; each run's reported status is compared with the readback.")

prop("P09", "An interrupted write never yields wrong data",
 "If the process dies, or the storage fails, at any point while writing a file, opening and reading what is on disk afterwards either fails cleanly or returns layers that were completely written, with exactly the written content. "
 "No interruption point makes a reader crash, hang or return different voxels.",
 ["crash_points", "inputs"],
 "All prefixes of the sequence of file writes (including torn writes) x files x encodings.",
 "No test reads a partially written file.",
 ["src/OStream.cpp", "src/OArchive.cpp", "src/IArchive.cpp", "src/IStreams.cpp", "src/IGroup.cpp", "src/IData.cpp", "src/Field3DFile.cpp"],
 [("frozen flag and root position written last", "src/OStream.cpp"), ("isFrozen", "src/IStreams.cpp"), ("open", "src/Field3DFile.cpp")],
 observe=["result of opening and reading the truncated or partially written file"],
 technique="crash-point enumeration over the recorded write log with a readback oracle, under ASan+UBSan", level="fault_enumeration",
 note="Write log recorded by interposing the write calls; prefixes and torn tails replayed; every resulting file read in full.")

prop("P10", "Damaged or hostile files cannot corrupt memory or hang",
 "Opening and reading any file, whatever its bytes, either succeeds or fails with a reported error: it never reads or writes outside allocated memory, never dereferences invalid pointers, never loops forever or allocates memory out of proportion to the file, and leaves the library usable for other files.",
 ["inputs"],
 "All byte strings, in particular all small corruptions of valid files. (The HDF5 container itself is parsed by the HDF5 library: for that encoding, all groups, attributes and datasets in a sound container.)",
 "Tests only open files the library has just written.",
 ["src/IStreams.cpp", "src/IGroup.cpp", "src/IData.cpp", "src/IArchive.cpp", "src/OgIGroup.cpp", "src/SparseFieldIO.cpp", "src/DenseFieldIO.cpp", "src/Field3DFile.cpp", "src/Field3DFileHDF5.cpp", "src/Hdf5Util.cpp", "src/FieldMappingIO.cpp"],
 [("IGroup/IData/IStreams parsing", "src/IGroup.cpp"), ("readData of dense, sparse, MAC and MIP fields", "src/SparseFieldIO.cpp")],
 observe=["sanitizer reports, time and allocation of open and read"],
 technique="mutation fuzzing of valid files under ASan+UBSan with time and allocation monitors",
 note="Structured mutations (sizes, offsets, child counts, attribute values) and random ones.")

prop("P11", "A field is an exact map from voxels to values",
 "After any sequence of resizing, clearing, assigning and writing voxels (and, for sparse fields, changing background values, releasing blocks or setting the block size), every voxel in the data window reads the last value assigned to it or the applicable fill or background value, through every access path, and writes affect exactly the addressed voxel. "
 "Bounds queries, voxel counts, block queries and reported memory agree with that state.",
 ["histories", "inputs"],
 "All histories of operations on dense, sparse, staggered and empty fields of any voxel type and window.",
 "Tests set a few voxels of origin-based fields.",
 ["export/DenseField.h", "export/SparseField.h", "export/MACField.h", "export/EmptyField.h", "export/Field.h", "export/ProceduralField.h"],
 [("lvalue/value/fastLValue/fastValue", "export/SparseField.h"), ("setSize/clear", "export/Field.h"), ("releaseBlocks/setBlockEmptyValue", "export/SparseField.h")],
 observe=["value/lvalue/iterator results and size queries"],
 technique="model-based monitor (shadow map) over operation histories, under ASan+UBSan",
 note="A plain map shadows every operation; every voxel and query is compared after every few steps.")

prop("P12", "Iterators visit every voxel of their range exactly once",
 "Iterating over a field or over any sub-window, with read-only, writing, component or block iterators and through the wrapping views of multi-resolution and constant fields, visits exactly the voxels (or blocks) of that range once each, with matching coordinates and values, x fastest, then y, then z; writing through an iterator changes exactly that voxel. "
 "Copies of iterators are independent.",
 ["inputs"],
 "All fields and sub-windows, including empty, one-voxel, negative and block-crossing ones.",
 "Tests iterate full origin-based windows.",
 ["export/DenseField.h", "export/SparseField.h", "export/MACField.h", "export/Field.h", "export/EmptyField.h", "export/MIPField.h"],
 [("iterators", "export/SparseField.h"), ("block_iterator", "export/SparseField.h"), ("mac_comp_iterator", "export/MACField.h"), ("const_iterator", "export/Field.h")],
 observe=["coordinates and values seen by the iterators"],
 technique="exactly-once visit monitor over generated fields and windows, under ASan+UBSan",
 note="Each visit is logged and compared with the enumerated range.")

prop("P13", "Copies of fields are equal and independent",
 "Copying, cloning or assigning a field of any kind (including conversion between dense, sparse and multi-resolution kinds through the copy helpers) gives a field equal in windows, values, mapping, metadata, name and attribute; afterwards a change to either one - voxels, background values, mapping, metadata, size - is never visible in the other, in any destruction order. "
 "Assigning a field to itself or over a larger or smaller field behaves the same way.",
 ["histories", "inputs"],
 "All fields x copy paths x later mutations of both sides x destruction orders.",
 "Tests clone once and compare a few values.",
 ["export/Field.h", "export/DenseField.h", "export/SparseField.h", "export/MACField.h", "export/MIPField.h", "export/EmptyField.h", "src/FieldMetadata.cpp", "export/FieldMetadata.h"],
 [("copy constructors, assignment, clone", "export/SparseField.h"), ("FieldRes::copy", "export/Field.h"), ("matchDefinition/copyFrom", "export/Field.h")],
 observe=["all observable state of both fields"],
 technique="snapshot/mutate/compare monitor over copy histories, under ASan+UBSan",
 note="Snapshots of both sides are compared after each mutation of the other.")

prop("P14", "Coordinate mappings are consistent and invertible",
 "For every mapping, local, voxel and world coordinates convert consistently: there-and-back conversions return the starting point up to rounding, voxel coordinates follow the field's extents after any resize, transforms and voxel sizes agree with the matrices and times that were set (interpolating linearly between time samples and clamping outside), and direction transforms ignore translation. "
 "Resetting or replacing samples leaves nothing of the old state behind, and equality tests are symmetric and reflexive.",
 ["inputs", "histories"],
 "All matrices, frusta, time samples, extents and query times x sequences of set calls.",
 "Tests check a few hand-picked transforms at time zero.",
 ["src/FieldMapping.cpp", "export/FieldMapping.h", "export/Curve.h", "export/CoordSys.h", "src/ProceduralField.cpp"],
 [("MatrixFieldMapping", "src/FieldMapping.cpp"), ("FrustumFieldMapping", "src/FieldMapping.cpp"), ("Curve::linear", "export/Curve.h")],
 observe=["results of the conversion calls"],
 technique="independent reference-model monitor of coordinate conversions over set/query histories, under ASan+UBSan",
 note="A separate double-precision reference computes each conversion; tolerance scales with conditioning.")

prop("P15", "Interpolation matches its definition everywhere",
 "Linear interpolation at any point returns the trilinear blend of the eight surrounding voxels with coordinates clamped to the data window: exact at voxel centers, continuous, and bounded by the surrounding values; the generic, dense, sparse, staggered and multi-resolution variants agree with each other. "
 "Cubic interpolation is the tensor-product Catmull-Rom spline (with zero tangents between equal samples) over the voxels clamped to the data window: exact at voxel centers, reproduces constants, and its variants agree; procedural fields are looked up at the local-space position of the point; no query point reads outside the field.",
 ["inputs"],
 "All fields, windows (including non-zero origins) and query points, inside and outside the field, x interpolator variants.",
 "Tests sample a few points on origin-based fields.",
 ["export/FieldInterp.h", "export/DenseField.h", "export/SparseField.h", "export/MACField.h", "export/MIPInterp.h", "src/FieldInterp.cpp", "export/EmptyField.h", "export/ProceduralField.h"],
 [("LinearFieldInterp/LinearGenericFieldInterp/LinearSparseFieldInterp/LinearMACFieldInterp", "export/FieldInterp.h"), ("MIPLinearInterp", "export/MIPInterp.h")],
 observe=["interpolated values"],
 technique="reference-model and cross-variant monitor of interpolators, under ASan+UBSan",
 note="Independent double-precision reference blends.")

prop("P16", "Generated resolution pyramids match their definition",
 "Building a multi-resolution field from any dense or sparse field whose data window is its extents and starts at the origin (others are refused with a null result) keeps the finest level identical to the source, halves each next level in every axis (rounding up to cover the finer level at its offset) while some axis is larger than the requested size and every axis is larger than two, and fills each coarser voxel with the filter's normalised weighted average of the covered finer voxels; constants stay constant, values stay within the finer level's range for averaging filters, and dense and sparse inputs agree. "
 "Each level's voxels lie, at every time, where the source voxels they cover lie (for frustum and null mappings each level spans the source's local space), and metadata, name and attribute are carried over.",
 ["inputs", "configurations"],
 "All source fields, windows, filters, minimum resolutions, offset flags and thread counts.",
 "Tests build one pyramid of a constant or simple field.",
 ["export/MIPUtil.h", "src/MIPUtil.cpp", "export/MIPField.h", "export/MIPBase.h", "export/Resample.h"],
 [("makeMIP/mipSeparable/mipResample", "export/MIPUtil.h"), ("adjustedMIPFieldMapping/mipResolution", "src/MIPUtil.cpp")],
 observe=["levels of the generated field"],
 technique="reference-model monitor of pyramid generation, under ASan+UBSan",
 note="An independent separable filter reference in double precision.")

prop("P17", "Multi-resolution levels load lazily, once, and correctly",
 "Reading a multi-resolution field from a file makes each level's voxels, windows and mapping available on first use exactly as written, no matter in which order, through which accessor, from how many threads or after how many copies of the field the levels are touched, and whether or not the file object still exists; level counts and resolutions are known without loading. "
 "A level that cannot be loaded (its file gone or replaced, or the field never set up) is reported by an exception, and can be tried again.",
 ["schedules", "histories", "inputs"],
 "All orders and interleavings of level accesses x copies x encodings x voxel types.",
 "Tests read the levels once in order in one thread.",
 ["export/MIPField.h", "export/MIPBase.h", "src/MIPFieldIO.cpp", "export/Field3DFile.h"],
 [("loadLevelFromDisk/setupLazyLoad", "export/MIPField.h"), ("MIPFieldIO lazy actions", "src/MIPFieldIO.cpp")],
 observe=["level contents and load order"],
 technique="model-based monitor over lazy access histories plus TSan stress",
 note="Access orders are random; concurrent first touches run under TSan.")

prop("P18", "Resampling matches the filter definition",
 "Resampling a dense or sparse field whose data window starts at the origin (others are refused) to any resolution gives a field of exactly that resolution, covering the same world region when the source's data window is its extents, in which each voxel is the separable filter's normalised weighted average (or minimum or maximum) of the source voxels in its support, up to rounding of the voxel type and for values of any size; constants stay constant, resampling to the same resolution with a box, triangle, min or max filter of unit width keeps the values, dense and sparse results agree, name, attribute, metadata and mapping are carried over, and the source is untouched.",
 ["inputs", "configurations"],
 "All source fields, windows, target resolutions and filters.",
 "Tests resample one field to a few sizes and check little.",
 ["export/Resample.h", "src/Resample.cpp"],
 [("resample/separable", "export/Resample.h"), ("filters", "src/Resample.cpp")],
 observe=["voxels of the resampled field"],
 technique="reference-model monitor of resampling, under ASan+UBSan",
 note="Independent separable reference in double precision.")

prop("P19", "Staggered-grid conversion and access keep face values",
 "Converting between cell-centred and staggered velocity fields follows the averaging definition for any window and mapping: each face gets the mean of its two cells in the field's own frame (border faces take the nearest cell; a rotation too small to matter may be ignored), cell values are the mean of their two faces, and uniform fields survive both ways. "
 "Face access, interpolation and field sizes stay within bounds for any data window.",
 ["inputs"],
 "All cell-centred fields, windows and (orthogonal) mappings.",
 "Tests convert one small origin-based field.",
 ["export/MACFieldUtil.h", "export/MACField.h"],
 [("convertMACToCellCentered/convertCellCenteredToMAC", "export/MACFieldUtil.h"), ("getCompField/uValue", "export/MACField.h")],
 observe=["converted values"],
 technique="reference-model monitor of conversions, under ASan+UBSan",
 note="Reference averaging computed from the input model.")

prop("P20", "Shared fields and caches survive any use by many threads",
 "Reference-counted objects may be shared, copied and released by any number of threads: each is destroyed exactly once, after its last reference is gone. "
 "The shared field cache returns a live, correct field for the file, layer and type asked for, or nothing, under any interleaving of lookups, insertions and releases, and its memory and hit reports match what it holds.",
 ["schedules", "histories"],
 "All interleavings of copies, releases, casts, lookups and insertions by any number of threads.",
 "Tests use the pointers and the cache from one thread.",
 ["export/RefCount.h", "export/FieldCache.h", "src/FieldCache.cpp", "src/ClassFactory.cpp", "export/Field.h"],
 [("intrusive_ptr_add_ref/intrusive_ptr_release", "export/RefCount.h"), ("getCachedField/cacheField", "export/FieldCache.h")],
 observe=["destructor counts", "race and memory reports", "returned fields"],
 technique="TSan/ASan stress with destructor-count and cache-identity monitors and delay injection",
 note="Interleavings are sampled with delay injection.")

prop("P21", "Run-time types and class creation are exact",
 "A cast to a field, mapping or IO type succeeds exactly when the object is of that type or derives from it, for every kind of object, voxel type and pointer form, and class and data-type names identify types uniquely. "
 "Types without a run-time type of their own (the MIPDenseField and MIPSparseField aliases) are named like their base. Creating objects by registered name gives an object of exactly that class, unknown names give nothing, later registrations never change earlier ones' results, and registration and creation may happen concurrently.",
 ["programs", "inputs", "schedules"],
 "All pairs of types x names x orders of registration.",
 "Tests try a few casts.",
 ["export/Field.h", "export/RefCount.h", "src/ClassFactory.cpp", "export/ClassFactory.h", "src/InitIO.cpp", "export/Traits.h"],
 [("FIELD_DYNAMIC_CAST/DEFINE_FIELD_RTTI macros", "export/RefCount.h"), ("ClassFactory::create*", "src/ClassFactory.cpp")],
 observe=["cast results vs dynamic_cast"],
 technique="differential monitor against the C++ dynamic_cast over all type pairs, under ASan+UBSan and TSan",
 note="Complete matrix of type pairs; registration histories random.")

prop("P22", "Field groups sample every member field correctly",
 "A group of fields sampled at any world position returns the sum (or the composition documented) of exactly those members whose data window covers the point, whatever mix of kinds, voxel types, mappings (taken at time 0) and bounds. It reports bounds and ray intersections that follow from its members, and min/max ranges that contain every stored voxel value centred in the queried box.",
 ["inputs"],
 "All groups of fields x points, rays, times and regions.",
 "No test uses field groups.",
 ["export/FieldGroup.h", "export/FieldSampler.h", "export/FieldWrapper.h"],
 [("FieldGroup::sample/sampleMIP", "export/FieldGroup.h"), ("FieldSampler dispatch", "export/FieldSampler.h"), ("FieldWrapper", "export/FieldWrapper.h")],
 observe=["sampled values and intervals"],
 technique="reference-model monitor of group sampling, under ASan+UBSan",
 note="Reference sums interpolate each member separately.")

prop("P23", "Minimum and maximum fields bound the source",
 "The minimum and maximum companions generated for any dense or sparse field (or finest level of a multi-resolution field) whose data window is its extents and starts at the origin bound it conservatively: at every level, every source voxel's value lies, component by component, between the minimum and maximum voxels at the source voxel's centre, starting at the requested resolution, and each bound is attained by some source voxel in its footprint. Other fields are refused with null results, and the source is untouched.",
 ["inputs", "configurations"],
 "All source fields, windows, resolutions and thread counts.",
 "No test covers min/max generation.",
 ["export/MinMaxUtil.h", "src/MinMaxUtil.cpp", "apps/f3dmakemip/main.cpp"],
 [("makeMinMax", "export/MinMaxUtil.h")],
 observe=["min/max fields vs source voxels"],
 technique="bounds monitor over generated fields, under ASan+UBSan",
 note="Every source voxel is checked against its covering bounds.")

prop("P24", "Name patterns and file sequences expand exactly",
 "Matching names against patterns (wildcards, exclusions, several patterns, explicit name:attribute forms, ...) selects exactly the names the documented rules select. "
 "Expanding a file sequence specification yields exactly the described file names in order, and malformed input is rejected without reading out of bounds.",
 ["inputs"],
 "All strings and patterns.",
 "No test covers these utilities beyond a few literals.",
 ["src/PatternMatch.cpp", "export/PatternMatch.h", "src/FileSequence.cpp", "export/FileSequence.h"],
 [("match/split", "src/PatternMatch.cpp"), ("FileSequence", "src/FileSequence.cpp")],
 observe=["match results and expanded names"],
 technique="reference-model monitor over generated strings, under ASan+UBSan",
 note="Independent matcher and sequence expander.")

prop("P25", "The command-line tools keep what they are given",
 "Merging files keeps every selected layer of every input unchanged (partition, name, type, voxels, mapping, metadata) and drops nothing else selected; the pyramid tool writes each selected layer's pyramid (and bounds, on request) equal to what the library generates, skipping layers that are bounds already (names ending in _min or _max); excluded names stay out; the information tool lists what is in the file. "
 "A tool that cannot read or write what it was asked to exits with a failure status.",
 ["inputs", "fault_sequences"],
 "All sets of input files, layer kinds, options and unwritable outputs.",
 "The tools have no tests.",
 ["apps/f3dmerge/main.cpp", "apps/f3dmakemip/main.cpp", "apps/f3dinfo/main.cpp"],
 [("main of each tool", "apps/f3dmerge/main.cpp"), ("main", "apps/f3dmakemip/main.cpp")],
 observe=["output files and exit status"],
 technique="end-to-end differential monitor of the real tools (sanitized builds)",
 note="Runs the real binaries on generated files; output compared with the model.")

prop("P26", "Independent files can be used from many threads at once",
 "Threads that read and write different files through their own file objects, in any mix of encodings, get the same results as when run alone, without data races, crashes or deadlocks, and also when several of them open the same existing file for reading.",
 ["schedules", "inputs"],
 "All interleavings of independent file operations by any number of threads.",
 "The tests are single-threaded.",
 ["src/Field3DFile.cpp", "src/Field3DFileHDF5.cpp", "export/Hdf5Util.h", "src/Hdf5Util.cpp", "src/ClassFactory.cpp", "src/InitIO.cpp", "src/OArchive.cpp", "src/IArchive.cpp", "src/SparseFieldIO.cpp"],
 [("global HDF5 lock", "src/Hdf5Util.cpp"), ("class factory", "src/ClassFactory.cpp")],
 observe=["results per thread", "race reports"],
 technique="TSan and ASan stress of concurrent independent file histories with content oracle",
 note="Schedules sampled with delay injection.")

prop("P27", "Field and mapping classes of an application travel through files",
 "Field and mapping classes that an application defines and registers with their IO are written to and read from files, in both encodings, like the built-in ones: they come back as objects of that class, with the voxels, mapping and metadata they were written with. "
 "Layers of field classes the reading program doesn't know are absent, never read as something else, and don't keep the other layers from being read exactly; a file using a mapping class the reader doesn't know is refused, or its layers are read without that mapping but otherwise exactly. "
 "Writing a class that has no IO, or whose IO refuses or throws, is reported as a failure and doesn't damage the rest of the file; IO that fails, throws or gives nothing when reading only loses its own layers, and only while it does.",
 ["inputs", "fault_sequences", "histories"],
 "All classes, combinations of layers of known and unknown classes, and ways user-supplied IO fails.",
 "One test registers a mapping class; none defines a field class, reads a file without the classes, or lets user-supplied IO fail.",
 ["src/Field3DFile.cpp", "src/Field3DFileHDF5.cpp", "export/Field3DFileHDF5.h", "src/ClassFactory.cpp", "export/FieldIO.h", "export/FieldMappingIO.h"],
 [("readField/writeField/readFieldMapping", "src/Field3DFile.cpp"), ("createNewPartition", "export/Field3DFileHDF5.h"), ("class factory", "src/ClassFactory.cpp")],
 observe=["fields read back by a program that knows the classes", "fields read by a program that doesn't"],
 technique="two-process differential monitor with fault-injecting user-defined IO classes, under ASan+UBSan",
 note="Asserts of the library stay active in the checked build.")

prop("P28", "Nothing is leaked, however often an operation is repeated",
 "Repeating any history of operations - writing and reading files in either encoding, with any number of I/O threads, with or without on-demand loading and proxies, successfully, on a failing device or on damaged files, and work on fields in memory (copies, conversions, resizing, pyramids, resampling) - doesn't accumulate memory, open files, HDF5 handles or threads: whatever the objects used is released when they are gone.",
 ["inputs", "fault_sequences", "histories"],
 "All histories of operations and faults; the use after one more repetition is compared with the use before it.",
 "The tests do each thing once in one process and never look at what remains in use.",
 ["export/Hdf5Util.h", "export/SparseFile.h", "src/SparseFile.cpp", "src/Field3DFile.cpp", "src/Field3DFileHDF5.cpp", "export/SparseField.h", "export/RefCount.h", "include/MACFieldIO.h", "src/DenseFieldIO.cpp", "src/SparseFieldIO.cpp", "src/MIPFieldIO.cpp"],
 [("SparseFileManager::removeFieldFromCache/Reference", "src/SparseFile.cpp"), ("H5Scoped*", "export/Hdf5Util.h"), ("RefBase/intrusive_ptr", "export/RefCount.h")],
 observe=["allocated bytes, file descriptors, threads and HDF5 handles of the process"],
 technique="resource accounting over repeated random histories (ASan's allocator counts, descriptor, thread and HDF5 handle counts) with injected device errors and file damage",
 note="libhdf5 keeps a file open whose closing failed and loses its write buffer (264 bytes) after a device error; those histories are not judged for what libhdf5 keeps.")

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            a = dict(files=[x for x in p["files"] if os.path.exists("/repo/" + x)],
                     mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                     observe_at=list(p["observe"]))
            if p["state"]: a["state"] = list(p["state"])
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
            assert len(p["title"]) <= 80, p["title"]
            bad = [x for x in p["files"] if not os.path.exists("/repo/" + x)]
            if bad: print("missing file", p["id"], bad)
    checks = [dict(property=p["id"],
                   quick_cmd="python3 tools/check.py %s --tier quick" % p["id"],
                   thorough_cmd="python3 tools/check.py %s --tier thorough" % p["id"],
                   technique=p["technique"], level=p["level"], level_note=p["note"]) for p in P if p["id"] in SPECS]
    man = dict(version=1, setup_cmd="python3 -m py_compile tools/check.py tools/vbuild.py tools/vrun.py tools/specs.py",
               hooks=dict(guard="FIELD3D_VERIF_HOOKS", enable="tools/vbuild.py compiles /repo's sources with -DFIELD3D_VERIF_HOOKS", source_commits=[]),
               checks=checks, not_applicable=[],
               notes="Each check builds the library from /repo's working tree with clang sanitizers; see DESIGN.md.")
    pend = [p["id"] for p in P if p["id"] not in SPECS]
    for i in pend:
        man["not_applicable"].append(dict(property=i, reason="check under construction"))
    json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print("claimed", len(checks), "pending", pend)
main()
