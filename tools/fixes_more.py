# Later fix commits: commit subject -> (property, what failed before)
W = {
"initialize the values of an EmptyField": ("P11", "a freshly made proxy field reported uninitialised memory as its voxel value"),
"voxel count of empty and very large fields": ("P11", "the voxel count of a never-sized field was 1 and of a large proxy field overflowed"),
"compare iterators without dereferencing the end iterator": ("P12", "comparing an iterator with end() bound a reference to a null pointer (dense and staggered fields)"),
"block bounding boxes follow the data window": ("P12", "block_iterator::blockBoundingBox() ignored the data window's origin"),
"sparse iterators over an empty range touch no block": ("P12", "making a sparse iterator over an empty sub-window read outside the block array"),
}
W.update({
"assigning a field clones its mapping": ("P13", "after a = b, changing the mapping of one field changed the other's"),
"copying a multi-resolution field drops the old levels and handles fields without levels": ("P13", "copying or assigning a multi-resolution field that was never set up wrote outside the level array; assignment kept stale levels of the left-hand side"),
})
W.update({
"coordinateSystem() returns the extents that match the coordinate system": ("P14", "the extents from coordinateSystem(bounds, voxelSize, extents) had one voxel too many per axis (and a wrong minimum for negative bounds), so voxels had the wrong size and position"),
"discreteBounds() rounds before converting to integers": ("P14", "discreteBounds() truncated towards zero, so bounds at negative coordinates missed voxels they cover"),
})
W.update({
"on-demand sparse fields leave the block cache when their blocks are replaced": ("P04", "clear(), setSize(), setBlockOrder() or assignment on a dynamically loaded field left the manager pointing at freed blocks: use after free"),
"sparse const_iterator keeps its block reference through copies and honours the data window": ("P04", "copying a const_iterator of a dynamically loaded field dropped the block reference, so the block it stood on could be evicted under it"),
"evicting and flushing blocks skips blocks that are in use": ("P04", "eviction looped for ever when every cached block was referenced, and flushCache() freed blocks that were in use"),
"write sparse fields that are loaded on demand": ("P04", "writing a dynamically loaded field read through blocks that were not in memory"),
"close the file of an on-demand field with the field": ("P04", "every dynamically loaded field leaked its file handle; reopening used a stale one"),
"the memory limit holds for on-demand fields after limiting is turned off for new files": ("P05", "after setLimitMemUse(false) the fields already loaded on demand grew past the limit"),
})
W.update({
"concurrent on-demand loading of sparse blocks": ("P06", "threads reading the same on-demand field raced on load flags, use flags and the open file; blocks could be evicted between activation and use, and eviction could hang"),
"file references of on-demand fields stay put while others are added": ("P06", "looking up a file reference raced with std::deque::push_back() moving its table: use after free"),
"create the sparse file manager once when threads race for it": ("P06", "two threads making first use of SparseFileManager got different instances"),
"only the last release of a reference-counted object deletes it": ("P20", "two threads dropping the last two references both deleted the object, or read the count of a deleted one"),
"looking up a cached field never revives one that is being deleted": ("P20", "getCachedField() and memSize() of the field cache used fields whose destructor was already running"),
})
W.update({
"fields can be cast to FieldBase": ("P21", "field_dynamic_cast<FieldBase>() of any field gave null, although every field is a FieldBase"),
"empty fields of different data types are different run-time types": ("P21", "an EmptyField<V3d> could be cast to EmptyField<half> (both called themselves 'EmptyField'): type confusion"),
"plugins stay registered with the class factory, which is created only once": ("P21", "classes registered by plugins on FIELD3D_DSO_PATH went to a factory instance that was replaced right afterwards; two threads making first use of the factory got different ones, one of them freed"),
"classes may be registered and created from several threads": ("P21", "registering a class while another thread registered or created one corrupted the factory's maps"),
})
W.update({
 "cubic interpolation clamps to the lower border of the data window": ("P15", "cubic interpolation clamped every point to coordinate 0.5, so data windows reaching into negative coordinates were sampled at the wrong voxels (even at voxel centres), and staggered fields jumped to the wrong face left of the window"),
 "procedural fields are sampled at their local space position": ("P15", "looking up a procedural field whose extents do not start at 0 or differ from its data window sampled a different position than its mapping gives"),
 "interpolation at points far outside the field": ("P15", "points beyond the integer range (or at infinity) overflowed the voxel coordinate conversion: undefined behaviour, and values of the wrong border or NaN"),
})
W.update({
 "voxels of a resized dense vector field start out as zero": ("P16", "a dense field of vectors resized by setSize() held uninitialised values, which MIP levels (and any other user) then read"),
 "threads building a MIP level never share a block of a sparse target": ("P16", "several threads wrote into (and allocated) the same block of a sparse MIP level: lost voxels, races and crashes"),
 "MIP levels of sparse fields include everything within filter support": ("P16", "makeMIP() on sparse fields skipped allocated source blocks within the filter's support, so voxels near block borders were left empty; depended on the block layout"),
 "MIP levels with an offset have exactly the voxels that cover the finer level": ("P16", "levels of a MIP with an offset had one voxel too many or too few and read outside their source level"),
 "makeMIP refuses fields that do not start at the origin": ("P16", "makeMIP() of a field whose data window does not start at 0 crashed or returned shifted levels"),
 "MIP level mappings follow the base mapping at every time sample": ("P16", "level mappings used the voxel size of the first time sample for all samples (and 0.1 for one axis), so moving or sheared fields had MIP levels in the wrong place"),
})
W.update({
 "one voxel thick fields can be resampled": ("P18", "resample() refused (or mis-sized) fields with an axis of a single voxel"),
 "filter half float fields at full precision when resampling": ("P18", "filter weights and values of half fields were accumulated in half: constants of 30000 or more became inf or NaN, long filters lost precision"),
 "min and max filters handle values beyond the float range": ("P18", "min and max filters treated FLT_MAX (and larger double) voxels as 'no value' and gave 0 or FLT_MAX"),
 "makeMinMax refuses fields that it cannot bound": ("P23", "makeMinMax() of fields whose data window differs from the extents or does not start at 0 gave wrong bounds or crashed"),
 "MIP levels become visible to other threads only once fully loaded": ("P17", "a level's raw pointer was published before its mapping and metadata were set, read without synchronisation, and copies and memory queries raced with loading"),
 "accessing a MIPField that was never set up throws an exception": ("P17", "levels of a default-constructed MIPField (numLevels() is 1) were read out of bounds"),
 "a MIP level that fails to load from an HDF5 file leaves it closed": ("P17", "every failed attempt to load a level left the HDF5 file open; a missing Ogawa group was not reported"),
 "a MIP level that cannot be written makes writing the MIPField fail": ("P08", "writing a multi-resolution layer reported success when a level could not be written"),
 "memory use of an on-demand field can be queried while blocks are loaded": ("P17", "memSize() of an on-demand sparse field (FieldCache::memSize()) read block pointers that other threads were loading and evicting"),
 "the min/max of a group is not rounded to the type of its last field": ("P22", "getMinMax() of a group rounded the running result to each field's type: half fields turned bounds into inf or excluded actual values"),
 "the min/max of a group includes fields after one that the bounds miss": ("P22", "getMinMax() of a group stopped at the first field that does not overlap the box"),
 "initialize the bounds optimization flag of MIP fields in a group": ("P22", "groups with multi-resolution fields read an uninitialised flag, which could make sampleMIPMultiple() miss every point"),
 "sampleMultiple(), sampleMIPMultiple() and intersects() of a group can be used": ("P22", "FieldGroup::sampleMultiple(), sampleMIPMultiple() and intersects() did not compile"),
 "a group keeps the fields of earlier setup() calls": ("P22", "fields() of a group forgot the fields of earlier setup() and load() calls, although they stay in the group"),
 "the min/max of a group considers fields without pre-filtered versions": ("P22", "once one field had min/max companions, getMinMax() ignored all fields without them"),
 "making the min/max fields of a group replaces the old ones": ("P22", "makeMinMax() added to the companions loaded earlier"),
 "ray intersection of frustum fields of either handedness": ("P22", "rays through frustum fields whose camera is not mirrored gave inverted or no intervals; parallel rays outside the frustum and frusta behind the ray gave intervals"),
})
W.update({
 "the memory size of a field group is a number, not a pointer": ("P22", "FieldGroup::memSize() did not compile (it returned a pointer as the size)"),
 "the size and membership tests of field groups see all members": ("P22", "the bounds, size and membership tests of a group missed members of some types"),
 "converting to a MAC field rotates the vectors into the mapping": ("P19", "convertToMAC() of a rotated field gave wrong face values unless the rotation was about a single axis"),
 "MACFieldUtil.h includes the header that it needs": ("P19", "including MACFieldUtil.h alone does not compile"),
 "threads that write sparse blocks take turns and report failures": ("P07", "threads writing blocks waited for their turn on an unsynchronised counter (data race); one that failed left the others spinning forever or ended the process"),
 "threads that read sparse blocks report failures": ("P07", "an exception in a thread that reads blocks ended the process"),
 "I/O uses at least one thread": ("P07", "setNumIOThreads(0) wrote and read sparse fields without their blocks and reported success"),
 "making MIP levels uses at least one thread": ("P07", "making MIP levels with 0 threads gave empty levels"),
 "closing a file reports whether all of it could be written": ("P08", "failed writes to Ogawa files (full disk, ...) were not reported, or ended the process from a destructor; close() always returned true"),
 "writing a MAC field to an Ogawa file is reported as a failure": ("P08", "writing a MAC field to an Ogawa file reported success, but the field was not in the file"),
 "a HDF5 file that can't be closed is closed only once": ("P08", "closing an HDF5 file again after it failed crashed"),
 "a file that can't be created isn't left half open": ("P08", "a file whose creation failed part way let layers be written to a null group (crash)"),
 "data that HDF5 only writes when a dataset is closed is checked too": ("P08", "blocks that HDF5 could only write when closing a dataset were lost without a report"),
 "a partition that couldn't be written isn't used for other layers": ("P08", "after a partition's mapping couldn't be written, the next write to it dereferenced a null mapping"),
 "a group without children can be read": ("P10", "opening a file with a group of 0 children read the front of an empty vector"),
})
W.update({
 "reading data that isn't in an Ogawa file is reported": ("P10", "offsets and sizes in Ogawa files were trusted: reads outside the file gave uninitialised data, huge allocations and out-of-bounds accesses"),
 "an Ogawa file that was never completed isn't opened": ("P09", "files whose writing was interrupted were opened and read as far as they went"),
 "data in Ogawa files that doesn't match the field's size is reported": ("P10", "data sets of another size than the field overran or underfilled its memory; damaged blocks were returned as uninitialised voxels"),
 "data in HDF5 files that doesn't match the field's size is reported": ("P10", "HDF5 data sets and attributes of another size, rank or type than expected overran memory; failed block reads were ignored"),
 "impossible extents and data windows in files are reported": ("P10", "inverted or overflowing windows in proxies and MIP levels were used unchecked"),
 "unreadable partitions and mappings in files are reported": ("P10", "unknown mapping types aborted the process; objects that couldn't be examined were looked at uninitialised"),
})
W.update({
 "a layer that couldn't be written isn't found in HDF5 files": ("P09", "a layer whose writing failed (full disk) was found again with parts of its voxels when the HDF5 file was closed anyway"),
 "files in an unknown version of the Ogawa format aren't opened": ("P10", "opening an Ogawa file of an unknown version used the stream it had just deleted"),
 "file sequences without both numbers are rejected, and may begin with one": ("P24", "'a.-5#', '-5#.f3d', '#0-' and 'a.0-#' expanded to names of their own making; '1-3#.f3d' was rejected"),
 "numbers that are too large in file sequences are rejected": ("P24", "numbers beyond the int range were undefined behaviour; a sequence up to 2147483647 never ended"),
})
W.update({
 "tools use all input files, however they are given": ("P25", "f3dinfo, f3dmerge and f3dmakemip parsed their options twice: inputs given with -i replaced or duplicated the others"),
 "f3dmakemip skips min/max layers, as it says": ("P25", "f3dmakemip said it skipped bounds layers but filtered them again"),
 "f3dmakemip skips only the min/max layers themselves": ("P25", "names that merely contain _min or _max were taken for bounds layers; those of vector fields were filtered again"),
 "tools report what they can't read or write": ("P25", "f3dmerge, f3dmakemip, f3dsample ignored failed reads and writes and exited with 0; f3dmakemip crashed on fields it could not filter; f3dinfo left out unreadable layers silently"),
 "tools report damaged files instead of aborting": ("P25", "exceptions for damaged layers ended the tools with an abort"),
 "empty names and values aren't written twice in Ogawa files": ("P01", "metadata with an empty name was lost in Ogawa files: empty data was added to its group twice"),
 "metadata whose name contains a slash is read from Ogawa files": ("P01", "metadata whose name contains a slash was written to Ogawa files but not read back"),
 "a layer that couldn't be written doesn't hide the next one in Ogawa files": ("P25", "merging a MAC field into an Ogawa file made the next layer with its name and mapping unreadable"),
 'layers written without a partition name to HDF5 files go to partition "default"': ("P03", "writeScalarLayer(layerName, field) and writeVectorLayer(layerName, field) used the layer name as partition name and wrote a layer named default in HDF5 files"),
 "readLayers() and writeLayer() work with HDF5 files": ("P03", "readLayers() found no layers in HDF5 files and writeLayer() wrote none"),
 "dense fields of 2^31 values and more can be written": ("P01", "the number of values of dense fields was computed as an int when writing, larger fields couldn't be written"),
 "writing a field or mapping class without IO fails instead of aborting the program": ("P27", "writing a layer whose field class (or, in HDF5 files, mapping class) has no registered IO aborted the program in an assert before the failure could be returned"),
 "a mapping that can't be written doesn't make an HDF5 file unreadable": ("P27", "a layer whose mapping couldn't be written left a partition without mapping, after which the whole HDF5 file couldn't be opened"),
 "layers are listed although an earlier partition couldn't be written": ("P27", "layer listings counted the internal partitions of a name and missed the last one if an earlier one couldn't be written"),
 "writing HDF5 files doesn't leak property lists": ("P28", "every HDF5 file and every dense or sparse field written left an HDF5 property list open for ever"),
 "references to sparse fields on disk are reused once the field is gone": ("P28", "every sparse layer read with dynamic loading left a reference (with the block tables) behind for ever"),
 "writing MAC fields doesn't leak property lists": ("P28", "every MAC field component written left an HDF5 property list open for ever"),
})
