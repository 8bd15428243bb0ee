#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from the fix: commits of /repo. Run by hand after a fix."""
import json, subprocess, sys
# commit subject -> (property, what failed before)
W = {
"read the number of time samples of a frustum mapping from Ogawa files": ("P02", "a frustum mapping with several time samples came back from an Ogawa file with garbage or no samples"),
"clear the screen-to-world samples with the other frustum curves": ("P02", "a frustum mapping whose transforms were set again was written with mismatched sample lists (out-of-bounds read while writing)"),
"initialize the Z distribution in FrustumFieldMapping(extents)": ("P14", "FrustumFieldMapping(extents) used an uninitialised depth distribution and default-state flag"),
"non-time-varying setTransforms() replaces all earlier samples": ("P14", "setTransforms(ss,cs) after time-varying samples kept the old samples"),
"recompute the voxel sizes when the Z distribution changes": ("P14", "wsVoxelSize() kept the sizes of the previous depth distribution"),
"mappings that differ in shear are not identical": ("P02", "layers whose matrices differ only in shear shared the first layer's mapping in the file"),
"a single-value dense field needs a chunk size of one, not zero": ("P01", "a dense field of a single voxel could not be written to HDF5"),
"a partition keeps its own copy of the mapping it was written with": ("P02", "changing the mapping of an already written field changed where later layers were stored and which mapping they got"),
"Field3DOutputFile::create() starts from a clean slate": ("P03", "an output object reused for an Ogawa file after an HDF5 one kept writing to the HDF5 file; partition numbering leaked"),
"Field3DInputFile::open() forgets the previously opened file": ("P03", "an input object reused for another file reported the first file's encoding, layers or global metadata"),
"scalar and vector layers of one name need separate HDF5 partitions": ("P03", "writing a scalar and a vector layer of the same name to one partition failed in HDF5"),
"voxel size of a frustum mapping with a single slice": ("P14", "wsVoxelSize() of a one-slice frustum was zero or left over from the previous extents"),
}
try:
    from fixes_more import W as M
    W.update(M)
except ImportError:
    pass
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
fixed = []
for l in out.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        k = s[5:]
        if k not in W:
            sys.exit("no entry for: " + k)
        fixed.append("fixed: property=%s %s %s" % (W[k][0], h, W[k][1]))
p = "/verif/known_findings.json"
d = json.load(open(p))
d["fixed"] = fixed
json.dump(d, open(p, "w"), indent=1)
print(len(fixed), "fixes")
