INC_BOUNDS = "2D: every complex of <=3 edges (4 thorough), 2 cells, every boundary order; 2x1 and 2x2 grids of 6 square kinds; 3D: <=2 faces (3 thorough), 2x1x1 grids of 11 cube kinds (3x1x1 thorough); 4D: <=2 facets, cubical and simplicial complexes; 6 encodings; fans and polygons up to 36; meshes of hundreds of cells (lengths 2^k-1, 2^k, 2^k+1 and decimal ones up to 300..1100, 4200 thorough): polygons, fans, prisms, wedge fans, strips, grids"
INC = lambda prop: [
    {"src": "incidence.cpp", "tag": "2d", "flags": ["-DH_PROP=%d" % prop, "-DH_DIM=2"]},
    {"src": "incidence.cpp", "tag": "3d", "flags": ["-DH_PROP=%d" % prop, "-DH_DIM=3"]},
    {"src": "incidence.cpp", "tag": "3dr", "flags": ["-DH_PROP=%d" % prop, "-DH_DIM=3", "-DH_RES=6", "-DH_IDX=int"], "shards": 4},
    {"src": "incidence.cpp", "tag": "4d", "flags": ["-DH_PROP=%d" % prop, "-DH_DIM=4", "-DH_RES=8,6", "-DH_IDX=unsigned"], "shards": 4},
    {"src": "incidence.cpp", "tag": "4dn", "flags": ["-DH_PROP=%d" % prop, "-DH_DIM=4"], "shards": 4, "thorough_only": True},
]
GEO_B = "2D grids 2x1 of 6 square kinds x 3 shapes, 2x2, polygons and fans to 12 (40) corners; 3D grids 2x1x1 of 12 cube kinds x 2 (3) shapes, frusta over 3 to 8 (16) corners; 4D cubes and simplices; 6 encodings x 8 affine maps (scales 1e-6..1e6, shifts, reflections); large meshes: polygons, fans, frusta, towers, strips of up to 300 (1100) cells or corners around powers of two, 3 encodings and maps"
def GEO(prop):
    u = [
        {"src": "geometry.cpp", "tag": "2d", "flags": ["-DH_PROP=%d" % prop, "-DH_DIM=2"]},
        {"src": "geometry.cpp", "tag": "3d", "flags": ["-DH_PROP=%d" % prop, "-DH_DIM=3"]},
        {"src": "geometry.cpp", "tag": "3dr", "flags": ["-DH_PROP=%d" % prop, "-DH_DIM=3", "-DH_RES=8", "-DH_IDX=int"], "thorough_only": prop in (10, 11)},
        {"src": "geometry.cpp", "tag": "4d", "flags": ["-DH_PROP=%d" % prop, "-DH_DIM=4", "-DH_IDX=unsigned"], "shards": 4},
    ]
    if prop != 9:
        u.append({"src": "geometry.cpp", "tag": "2df", "flags": ["-DH_PROP=%d" % prop, "-DH_DIM=2", "-DH_REAL=float"], "shards": 4})
        u.append({"src": "geometry.cpp", "tag": "3df", "flags": ["-DH_PROP=%d" % prop, "-DH_DIM=3", "-DH_REAL=float", "-DH_IDX=unsigned"], "shards": 4})
    return u
PROPS = {
    "M01": {"units": INC(1), "bounds": INC_BOUNDS},
    "M02": {"units": INC(2), "bounds": INC_BOUNDS},
    "M03": {"units": INC(3), "bounds": INC_BOUNDS},
    "M04": {"units": [
        {"src": "vtkread.cpp", "tag": "2d", "flags": ["-DH_DIM=2"]},
        {"src": "vtkread.cpp", "tag": "2di", "flags": ["-DH_DIM=2", "-DH_IDX=int", "-DH_REAL=float"], "thorough_only": True},
        {"src": "vtkread.cpp", "tag": "3d", "flags": ["-DH_DIM=3"]},
        {"src": "vtkread.cpp", "tag": "3dr", "flags": ["-DH_DIM=3", "-DH_RES=4", "-DH_IDX=unsigned"]},
    ], "bounds": "grids 2x1, 2x2 of 6 square kinds (2D), 2x1x1 of 11 cube kinds (3D; 3x1x1, 2x2x1 thorough), 4 vertex numberings, 3 layouts, 3 histories; all symmetric vertex orders of a cell next to a neighbour (both cells thorough); cell types 1..25; files without cells or points; meshes of 1 to 4050 cells (24000 thorough) in 6 layouts, one with CR LF; cells whose edges or faces a careless key would merge, also by packed indices (vertices up to 900000); 33000 (70000) separate cells"},
    "M05": {"units": [
        {"src": "meshwrite.cpp", "tag": "fpma", "flags": ["-DH_DIM=3", "-DH_PROP=5"]},
        {"src": "meshwrite.cpp", "tag": "fpmar", "flags": ["-DH_DIM=3", "-DH_PROP=5", "-DH_RES=5", "-DH_IDX=unsigned"]},
    ], "bounds": "3D grids 2x1x1 (12 cube kinds), 3x1x1 (5; 12 thorough), 6 encodings, loops rotated/reversed/mixed, 3 layouts, prisms up to 14 (32) corners, of up to 600 (4200) corners around powers of two; grids of up to 1152 (10120) cubes; vertices far apart (up to 900000), 20000 separate cells; the first cells of a mesh, also none, also only vertices or nothing"},
    "M06": {"units": [
        {"src": "meshwrite.cpp", "tag": "vtk2", "flags": ["-DH_DIM=2", "-DH_PROP=6"]},
        {"src": "meshwrite.cpp", "tag": "vtk3", "flags": ["-DH_DIM=3", "-DH_PROP=6"]},
        {"src": "meshwrite.cpp", "tag": "vtk3r", "flags": ["-DH_DIM=3", "-DH_PROP=6", "-DH_RES=5", "-DH_IDX=unsigned"], "thorough_only": True},
    ], "bounds": "2D grids 2x1, 2x2, 3D grids 2x1x1, 3x1x1 (2x2x1 thorough), 6 encodings, 3 splitting modes, all subsets of 6 (10) split cells, scales 1e-12..1e12, single cells: every edge direction (hexahedron: 64 patterns, 4096 thorough), grids of up to 2070 (20300) squares and 1152 (11132) cubes, 4 rotations, first faces, 3 side patterns; polygons, fans and prisms of up to 600 corners (4200); meshes without cells"},
    "M07": {"units": [
        {"src": "history.cpp", "tag": "vtk2", "flags": ["-DH_DIM=2", "-DH_PROP=7", "-DH_FPMA=0"]},
        {"src": "history.cpp", "tag": "vtk3", "flags": ["-DH_DIM=3", "-DH_PROP=7", "-DH_FPMA=0"]},
        {"src": "history.cpp", "tag": "vtk3r", "flags": ["-DH_DIM=3", "-DH_PROP=7", "-DH_FPMA=0", "-DH_RES=5", "-DH_IDX=unsigned"]},
        {"src": "history.cpp", "tag": "fpma", "flags": ["-DH_DIM=3", "-DH_PROP=7", "-DH_FPMA=1"]},
        {"src": "history.cpp", "tag": "vtk3s17", "std": "c++17", "flags": ["-DH_DIM=3", "-DH_PROP=7", "-DH_FPMA=0"]},
    ], "bounds": "3 start meshes x 2 type assignments x every sequence of up to 2 (3 thorough) of 29 modifications, a write after each; one modification (first, middle, last element) of strips of 16 to 130 (600) cells; writers constructed on 4 memory patterns"},
    "M08": {"units": [
        {"src": "history.cpp", "tag": "load2", "flags": ["-DH_DIM=2", "-DH_PROP=8"]},
        {"src": "history.cpp", "tag": "load3", "flags": ["-DH_DIM=3", "-DH_PROP=8"]},
        {"src": "history.cpp", "tag": "load3r", "flags": ["-DH_DIM=3", "-DH_PROP=8", "-DH_RES=5", "-DH_IDX=int"]},
    ], "bounds": "every sequence of up to 4 (5 thorough) of 12 operations: load of 5 files, of 2 refused files, boundary cells, their centres, centres, clear, signature; loads of every pair of 21 sizes of 1 to 300 cells; signatures compared with those of new meshes in memory of 3 patterns"},
    "M09": {"units": GEO(9), "bounds": "2D/3D/4D families of M10 in 6 encodings, with every single cell not registered at its faces; all sequences of 3 (4 thorough) of 6 operations; large meshes (as in M10) with every sequence of 2 operations; all 324 states of a face connection x all operations to depth 2 (3)"},
    "M10": {"units": GEO(10), "bounds": GEO_B + "; parts of the meshes (fewer cells, none, no faces, nothing); cells with one or two displaced corners (curved faces) for the tessellated method"},
    "M11": {"units": GEO(11), "bounds": GEO_B + "; curved faces for the tessellated method; meshes without faces"},
    "M12": {"units": [{"src": "datacont.cpp", "tag": t, "flags": ["-DH_PART=%d" % k]} for k, t in enumerate(["plain", "tuple"])],
            "bounds": "13 containers (1 to 4 arrays, repeated dimensions, 6 value types, tuples) x meshes with every combination of 0..2 (3 thorough) elements per dimension: every element addressed in every way; every sequence of 4 (5 thorough) of 15 operations on two containers and a mesh; up to 5000 (70000) elements of one or all dimensions, lengths around powers of two"},
    "M13": {"units": [
        {"src": "celldata.cpp", "tag": "2d", "flags": ["-DH_DIM=2"], "shards": 4},
        {"src": "celldata.cpp", "tag": "2di", "flags": ["-DH_DIM=2", "-DH_IDX=int"], "shards": 4, "thorough_only": True},
        {"src": "celldata.cpp", "tag": "3d", "flags": ["-DH_DIM=3"]},
        {"src": "celldata.cpp", "tag": "3dr", "flags": ["-DH_DIM=3", "-DH_RES=6", "-DH_IDX=unsigned"]},
    ], "bounds": "12 kinds of data (14 attribute types and accessors, bound traits, tuples of up to 4 arrays) x 3 value patterns x 24 meshes x 4 splittings x 2 encodings; every subset of up to 8 (12) split cells in 121 meshes; meshes of 0 to 3 vertices without cells; all sequences of 3 (4) of 7 changes between files of one writer; files with columns in all orders, others between, 3 layouts; with 5 x 5 sections of point data around 8 of cell data; strips of 30 to 300 (1100) cells, every third one split, in all kinds"},
    "M14": {"units": [{"src": "subelem.cpp", "tag": "lists", "flags": []}],
            "bounds": "lists of capacity 1..4 and unbounded, 3 index types: every sequence of 6 (7) additions, removals at every index in and out of range, copies, assignments and exchanges, iterated forwards and backwards and compared; removal of every index of lists up to 300; elements in memory of 3 patterns with 5 x 5 x 5 indices, 4 mesh kinds"},
    "M15": {"units": [
        {"src": "dispatch.cpp", "tag": "2d", "flags": ["-DH_DIM=2", "-DH_PROP=15"]},
        {"src": "dispatch.cpp", "tag": "3d", "flags": ["-DH_DIM=3", "-DH_PROP=15"]},
        {"src": "dispatch.cpp", "tag": "3df", "flags": ["-DH_DIM=3", "-DH_IDX=unsigned", "-DH_REAL=float", "-DH_PROP=15"]},
    ], "bounds": "18 paths x 8 overloads x 3 meshes x 3 type assignments x no/VTK/FPMA writer x existing or new file; every sequence of 3 (4) writes through one writer over 4 paths, 2 meshes, 2 types; loads of 18 paths into 3 previous meshes; 3 kinds of paths that cannot be opened; 4 global locales x 8 overloads x 4 meshes x 3 scales"},
    "M16": {"units": GEO(16), "bounds": GEO_B + "; without, with, and with moved boundary cells; meshes without faces"},
    "M17": {"units": [
        {"src": "history.cpp", "tag": "sig2", "flags": ["-DH_DIM=2", "-DH_PROP=17"], "shards": 2},
        {"src": "history.cpp", "tag": "sig3", "flags": ["-DH_DIM=3", "-DH_PROP=17"], "shards": 4},
        {"src": "history.cpp", "tag": "sig3s17", "std": "c++17", "flags": ["-DH_DIM=3", "-DH_PROP=17"], "shards": 4},
        {"src": "history.cpp", "tag": "sig3r", "flags": ["-DH_DIM=3", "-DH_PROP=17", "-DH_RES=5", "-DH_IDX=int"], "shards": 4},
    ], "bounds": "every single change of any field, and every exchange of two vertices, faces, cells or sub-elements, in 9 meshes with and without centres, at the places of interest of strips of 68 and 134 (301) cells; all pairs of meshes in 6 encodings; the same mesh made in 8 ways in memory of 3 patterns; C++14 and C++17"},
    "M19": {"units": [
        {"src": "damaged.cpp", "tag": "2d", "flags": ["-DH_DIM=2"]},
        {"src": "damaged.cpp", "tag": "3d", "flags": ["-DH_DIM=3"]},
        {"src": "damaged.cpp", "tag": "3dr", "flags": ["-DH_DIM=3", "-DH_RES=5", "-DH_IDX=int"]},
    ], "bounds": "7 meshes in 2D, up to 15 in 3D (every cube kind), VTK in 6 layouts, FPMA in 3: cut after every byte, every token damaged in 12 ways, the device failing at every byte (once, for ever; pieces of 3 sizes); data of 4 classes: cut or device failing after every byte, every token damaged in 4 ways, every column missing, columns in every rotation"},
    "M20": {"units": [
        {"src": "dispatch.cpp", "tag": "2d", "flags": ["-DH_DIM=2", "-DH_PROP=20"]},
        {"src": "dispatch.cpp", "tag": "3d", "flags": ["-DH_DIM=3", "-DH_PROP=20"]},
        {"src": "dispatch.cpp", "tag": "3df", "flags": ["-DH_DIM=3", "-DH_IDX=unsigned", "-DH_REAL=float", "-DH_PROP=20"], "thorough_only": True},
    ], "bounds": "3 small and 2 large meshes per dimension, 2 formats, 6 ways to call write, 2 type assignments: the device fills up after every byte (large files: every 61st byte, 7th thorough, and around the buffers; meshes of 512 to 4224 cells, every section larger than the buffer: at 120 (1000) places and the last bytes), a full device"},
    "S01": {"units": [{"src": "serial.cpp", "tag": "values%d" % k, "flags": ["-DH_PROP=1", "-DH_PART=%d" % k], "shards": 2} for k in range(11)], "bounds": "62 types (arithmetic, enums, strings, sequence, associative and TNL-like containers, arrays, tuples, traited, compact and customized classes, nested to depth 3): all sequences up to 3 (4 thorough) elements over 3 element values, all subsets of 6 map entries, >600 values per integer type, 3-5 previous contents of the target, 0, 1 or 3 bytes in front, 6 interfaces; 9 trait bindings, and 7 more of classes inside 8 kinds of containers and of another class with lengths around powers of two, the same for classes marked compact and for sets; long texts, lists, sets and maps around powers of two"},
    "S02": {"units": [{"src": "serial.cpp", "tag": "history", "flags": ["-DH_PROP=2"]}], "bounds": "all sequences of 6 (7 thorough) of 10 operations (writes of 5 kinds, read, reset, clear, copy, assign, save, load); w writes, r reads, w2 writes for all w <= 40 (90), r <= w, w2 <= 12, 3 mixes; many writes around powers of two"},
    "S03": {"units": [{"src": "serial.cpp", "tag": "files", "flags": ["-DH_PROP=3"]}], "bounds": "contents of 0..519 (1199) bytes in 4 patterns over 3 old files; every failing offset of contents of 0..259 (699) bytes; 5 kinds of unusable paths; every offset of contents of 0..79 bytes (and 18 of longer ones, around the buffer of a stream) at which reading fails or ends, old data of 3 kinds, pieces of 4 sizes; long contents around powers of two"},
    "T01": {"units": [{"src": "traits.cpp", "tag": t, "flags": ["-DH_PROP=1", "-DH_PART=%d" % k, "-O0"], "shards": 1} for k, t in enumerate(["access", "macroA", "macroB", "rest"])],
            "bounds": "12 kinds of accessors: every sequence of 2 (3 thorough) sets of any attribute, 7 ways to set, 3 ways to get, original and copied traits; 7 macros with 1..20 attributes each; 8 combinations of default traits"},
    "T02": {"units": [{"src": "traits.cpp", "tag": "select%d" % k, "flags": ["-DH_PROP=2", "-DH_CLS=%d" % k, "-O0"], "shards": 1} for k in range(3)],
            "bounds": "3 classes x every list of 1 to 3 of 5 bound traits (repetitions included), selected by reference and by value"},
    "T03": {"units": [{"src": "arith.cpp", "tag": "part%d" % k, "flags": ["-DH_PART=%d" % k], "shards": 2} for k in range(4)],
            "bounds": "11 classes (flat, nested twice, 1 to 12 attributes of 9 arithmetic types, getters, templates, vectors as attributes) x 7 x 3 values per operand, every operator with constant, temporary and aliased operands, 9 scalars of 4 types, 13 functions, aggregations; containers of 5 element types up to 5 elements, of 2 types up to 1100 (5000)"},
    "T04": {"units": [{"src": "vector.cpp", "tag": t.replace(" ", ""), "flags": ["-DH_PROP=4", "-DH_T=" + t], "shards": 1, "thorough_only": t in ("short", "long double")} for t in ["int", "long long", "double", "float", "short", "long double"]],
            "bounds": "vectors of 1, 2, 3, 4, 5 and 9 coordinates of 4 (6 thorough) types: every pair of vectors over 7 values (1D, 2D), 4 values (3D; 4D thorough), position-dependent patterns above and in 6, 7, 8, 10, 16, 17, 33 dimensions; 8 scalars of 5 types and every own coordinate; lists of 0 to 5 values"},
    "T05": {"units": [{"src": "vector.cpp", "tag": "gs", "flags": ["-DH_PROP=5"], "shards": 8}],
            "bounds": "all tuples of 1..4 independent vectors in 1..5 dimensions over 2 to 5 integer values per coordinate, 4 overloads, float and double, 3 index types, two scales; 5 to 33 vectors in up to 33 dimensions: 4 bases with any two entries changed"},
    "T06": {"units": [{"src": "vector.cpp", "tag": "util", "flags": ["-DH_PROP=6"], "shards": 1}],
            "bounds": "loops from 4 starts over 7 lengths with steps 1..3, lengths up to 256; all 16 outcomes of 4 conditions in lists of 1..4 classes; all histories of 5 accesses to 2 singletons; 1..40 macro arguments in 5 forms"},
    "D01": {"units": [{"src": "debugprint.cpp", "tag": "out%d" % k, "flags": ["-DH_PROP=1", "-DH_PART=%d" % k], "shards": 2} for k in range(6)],
            "bounds": "97 types (arithmetic, texts, enums, pairs, tuples, sequence and associative containers, indexable classes, traited and compact classes, vectors, nested to depth 3): sequences up to 3 elements over 3 values; 17 bindings of traits; classes without printer of every byte value; 3 number formats x 3 stream states; long lists, texts and maps around powers of two"},
    "D02": {"units": [{"src": "debugprint.cpp", "tag": "stdio%d" % k, "flags": ["-DH_PROP=2", "-DH_PART=%d" % k], "shards": 2} for k in range(6)],
            "bounds": "the types and values of D01 printed to the standard output"},
    "D03": {"units": [{"src": "debuglog.cpp", "tag": "json", "flags": ["-DH_PROP=3"]}],
            "bounds": "44 types x values; every byte value in every position of texts up to 3 characters of a 12 character menu; expressions and file names of every printable character; all histories of 5 (6) writes, creations and destructions of two logs; macros in child processes; long texts and logs of many records; 4 x 4 global locales x 7 values; all histories of 5 (6) of 10 operations of two loggers that hand over their logs"},
    "D04": {"units": [{"src": "debuglog.cpp", "tag": "html", "flags": ["-DH_PROP=4"]}],
            "bounds": "as D03, into the HTML log"},
    "D05": {"units": [{"src": "debuglog.cpp", "tag": "console", "flags": ["-DH_PROP=5"]}, {"src": "debuglog.cpp", "tag": "off", "flags": ["-DH_PROP=6", "-DUNDEBUG"], "shards": 2}],
            "bounds": "every sequence of 4 (5) of 15 settings and outputs of a console logger and its copies; pairs of 12 macros in child processes; 1..40 variables in 3 forms; all pairs of 14 macros with UNDEBUG, and every sequence of 3 (4) of 7 mesh operations in a library built with it"},
    "D06": {"units": [{"src": "htmlpage.cpp", "tag": "page", "flags": []}],
            "bounds": "up to 3 calls of 5 kinds x up to 2 filters of 16 kinds x 4 lines; every session of 4 (5) of 8 actions on a page of 8 records; every text of up to 3 of 10 characters and 12 special ones as an expression, a file and a value; up to 600 (4200) calls, groups of 110 records and up to 40 (140) filters"},
    "M18": {"units": [{"src": "meshdata.cpp", "tag": "data", "flags": []}],
            "bounds": "14 containers (1 to 4 arrays, 10 value types, tuples) x every combination of 0..2 (3) elements per array x 3 previous contents x 3 fillings x 3 ways to store; lists, maps and classes of containers; aggregates of 4 containers x 0..3 (4) elements x 12 fillings; 8 mesh functions on grids up to 2x2 of 4 square kinds in 3 encodings; arrays of up to 5000 (70000) elements, lengths around powers of two"},
    "C01": {"units": [{"src": "conc.cpp", "tag": "mesh%d" % d, "race": True, "flags": ["-DH_DIM=%d" % d]} for d in (2, 3, 4)],
            "bounds": "21 operations on 2D, 3D and 4D meshes: every pair on every two of 3 meshes (the same one included) in two threads, triples, preemption at every access to a global variable and at up to 150 (4000) accesses to shared memory, every operation inside every other at up to 60 (all) of its callbacks"},
    "C02": {"units": [{"src": "conc.cpp", "tag": "values", "race": True, "flags": ["-DH_DIM=0"]}],
            "bounds": "15 operations of the serializer, printing, traits, logs and vectors on 2 sets of values, in the same schedules as C01"},
}
