"""The properties: text for properties.jsonl, method and assurance for MANIFEST.json (gen.py writes both)."""
PROPERTIES = []
NOT_APPLICABLE = []


def P(id, title, statement, over, qtext, why, files, mech, note, technique="exhaustive bounded state-space exploration of the real code against a reference model",
      observe=None):
    PROPERTIES.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note,
                           technique=technique, observe=observe or []))


M = "src/GTMesh/UnstructuredMesh/"
P("M01", "apply visits exactly the connected elements",
  "On every mesh of dimension 2 to 4, applying a functor from elements of one dimension to elements of another visits every connected (origin, target) pair and no other pair, for the whole mesh and for a single start element; indices passed are always those of existing elements. Between neighbouring dimensions every pair is visited exactly once.",
  ["inputs", "configurations"], "every mesh topology, every encoding of it (edge directions, left/right cells, order and start of the boundary lists, numbering), every pair of dimensions, static and dynamic sub-element storage, signed and unsigned index types",
  "The tests traverse two hand-made cubes and one file; the statement ranges over all topologies, encodings and dimension pairs, including 4D and meshes with faces without cells.",
  [M + "MeshFunctions/MeshApply.h", M + "UnstructuredMesh.h"],
  [("recursive descent over boundaries", M + "MeshFunctions/MeshApply.h"), ("closed boundary list of a cell", M + "MeshElements/CellBoundaryConnection.h")],
  "All abstract complexes up to 3 edges / 2 cells (2D), 2-3 faces (3D, 4D), all grids of the stated families in 6 encodings, executed on the real code; meshes beyond those sizes rest on the small-scope argument.")
P("M02", "connections and neighborhood list exactly the related elements",
  "For every mesh and every choice of dimensions, connections returns for each element exactly the indices of the connected elements without repetition, and neighborhood exactly the elements reachable through a common element of the connecting dimension, never the element itself when start and connected dimension agree. The default lists are in ascending order; with ORDER_ORIGINAL they keep the order of the first encounter along the stored boundary order.",
  ["inputs", "configurations"], "every mesh topology and encoding, every pair / triple of dimensions, both orders",
  "Unit tests look at one cube pair and few dimension combinations in the default order.",
  [M + "MeshFunctions/MeshConnections.h", M + "MeshFunctions/MeshNeighborhood.h"],
  [("first-visit bookkeeping and sorting", M + "MeshFunctions/MeshConnections.h"), ("union over connecting elements", M + "MeshFunctions/MeshNeighborhood.h")],
  "Same exhaustive families as M01; list contents and order compared exactly with a set model.")
P("M03", "colouring is proper and bounded",
  "Colouring elements over a connecting dimension gives different colours to any two elements that share a connecting element, with the greedy and with the random method and for every seed, never uses more colours than the largest number of conflicts plus one, works on meshes without elements, and gives the same result for the same seed, whether called on the mesh or as a function; different seeds give different colourings where the mesh leaves a choice.",
  ["inputs", "configurations"], "every mesh topology and encoding, every ordered pair of different dimensions, both methods, several seeds, conflict degrees up to 36 (thorough 66)",
  "The tests print a colouring of one mesh; nothing checks properness over all topologies, and colour counts beyond the machine word never occur in a test.",
  [M + "MeshFunctions/MeshColoring.h"],
  [("bitset of colours attached to connecting elements", M + "MeshFunctions/MeshColoring.h")],
  "Exhaustive over the families of M01 plus fans and polygons with up to 36 mutually conflicting elements (66 in the thorough tier); random method for 4 seeds per case; 32 seeds on 6 meshes, seeds of every bit on a fan of 40 per dimension.")
P("M04", "reading a VTK file builds exactly the described mesh",
  "Reading a legacy ASCII unstructured-grid VTK file with supported cells yields the vertices of the file in order, one edge per pair of adjacent vertices, one face per distinct face, every cell with exactly its faces in a closed boundary list, every face with exactly its one or two cells, and the cell types of the file, whatever the vertex order within the cells, the white space, or the previous content of the mesh and reader. Unsupported cell types and formats are refused by an exception.",
  ["inputs", "histories"], "every grid of the bounded families, every symmetric vertex order of the cells, three layouts, fresh and reused meshes, all VTK cell type numbers 1 to 25",
  "The tests read a couple of sample files; vertex orders, shared faces between all pairs of cell kinds and refusal are never enumerated.",
  [M + "MeshIO/MeshReader/VTKMeshReader.h"],
  [("tables of edges and faces per VTK cell type", M + "MeshIO/MeshReader/VTKMeshReader.h"), ("deduplication of edges and faces by vertex keys", M + "MeshIO/MeshReader/VTKMeshReader.h")],
  "Every file of the bounded families is written by the harness and read by the real reader; result compared as a complex with an independent model (VTK specification tables re-stated in the harness).")
P("M05", "FPMA files written and read back give the same mesh",
  "Writing a 3D mesh to FPMA lists its vertices in order with their coordinates, every face as a closed loop of its own vertices, and every cell as its faces in stored order; reading such a file (with any rotation, direction and white space of the loops) rebuilds exactly the same complex with the same numbering of vertices, faces and cells, all cells being polyhedra.",
  ["inputs", "histories"], "every grid of the bounded families (hexahedra, wedges, pyramids, tetrahedra, general polyhedra, prisms), every encoding, static and dynamic storage",
  "There is one FPMA sample and no writer test at all; the writer did not even compile before this work.",
  [M + "MeshIO/MeshReader/FPMAMeshReader.h", M + "MeshIO/MeshWriter/FPMAMeshWriter.h"],
  [("face outline from unordered edges", M + "MeshIO/MeshWriter/FPMAMeshWriter.h"), ("edge deduplication and list closing", M + "MeshIO/MeshReader/FPMAMeshReader.h")],
  "Exhaustive over the stated families; file contents and re-read complex compared with an independent model.")
P("M06", "VTK files written describe exactly the mesh",
  "A written VTK file is well formed, lists the mesh vertices first and in order, and describes each cell of a native type by the vertex order VTK prescribes for it (tetrahedra, pyramids and hexahedra not inside out). Every other 3D cell is replaced by one tetrahedron per face edge, built from the edge and shared centres of the face and the cell, that together fill exactly that cell, each piece being mapped back to its cell; reading the file back gives the same mesh, at any coordinate scale.",
  ["inputs", "configurations"], "every grid of the bounded families in 2D and 3D, every subset of split cells, every edge direction / boundary order / left-right assignment of each single cell type, scales 1e-12 to 1e12",
  "Tests write a file or two without checking contents; inside-out cells, collapsed centres and wrong vertex orders only show for particular encodings or scales.",
  [M + "MeshIO/MeshWriter/VTKMeshWriter.h", M + "MeshFunctions/EdgesOrientation.h"],
  [("vertex ordering per cell type", M + "MeshIO/MeshWriter/VTKMeshWriter.h"), ("tessellation and backward mapping", M + "MeshIO/MeshWriter/VTKMeshWriter.h")],
  "Exhaustive over the stated families; wedge orientation is left open because VTK itself is ambiguous about it.")
P("M07", "a writer with a history writes what a fresh writer would",
  "Whatever was written before with the same mesh writer and however the mesh was modified in between (types, coordinates, elements added, removed or exchanged, centres), with an explicit index or signature update as the API asks for, the next file is byte for byte the file a freshly constructed writer would produce, no matter what the memory of the writer held when it was constructed.",
  ["histories"], "every history of modifications and writes up to the stated length, three start meshes, writers constructed in zeroed, all-one and patterned memory",
  "A cached index is only wrong for particular histories of modifications and writes; tests construct a writer, write once and leave.",
  [M + "MeshIO/MeshWriter/MeshWriter.h", M + "MeshIO/MeshWriter/VTKMeshWriter.h", M + "MeshIO/MeshWriter/FPMAMeshWriter.h", M + "MeshElements/MeshElements.h"],
  [("hash of the last written mesh", M + "MeshIO/MeshWriter/MeshWriter.h"), ("cached cell vertices and splitting", M + "MeshIO/MeshWriter/VTKMeshWriter.h")],
  "Every history up to the bound executed on the real code; the oracle is a fresh writer.")
P("M08", "loading a mesh replaces everything the mesh held before",
  "After a successful load from VTK or FPMA the mesh equals, in every observable field (elements, boundary lists, boundary cells, flags of the cells, signature), the mesh obtained by loading the same file into a new object, whatever was loaded, refused, set up or cleared before; clear leaves no element of any dimension and no boundary cell.",
  ["histories"], "every sequence of loads, refused loads, clear, boundary set-up and centre computations up to the stated length, 2D and 3D, static and dynamic storage",
  "Tests load one file into one fresh mesh; left-overs only show in the second load of a particular pair of files.",
  [M + "MeshIO/MeshReader/VTKMeshReader.h", M + "MeshIO/MeshReader/FPMAMeshReader.h", M + "MeshElements/MeshElements.h", M + "UnstructuredMesh.h"],
  [("clear before reading", M + "MeshIO/MeshReader"), ("signature update at the end of the load", M + "MeshIO/MeshReader")],
  "All operation sequences up to the bound on the real readers; the oracle is a fresh load.")
P("M09", "boundary cells close the mesh and change nothing else",
  "setupBoundaryCells gives every side of a face without a cell a boundary cell of its own, whose index is marked as a boundary index and leads to the boundary cell, which in turn names the face; no other index changes, calling it again adds nothing, after adding faces it adds exactly the new ones. Their centres become the face centres. Traversal, connections, neighbours, colours, measures, normals and written files are the same with and without boundary cells; clear removes them. A face delivers the next boundary element and the other cell for each of its cells, and rejects any other; exchanging its left and right cell (swapCellsLR) leaves the boundary lists of both cells as they were.",
  ["inputs", "histories"], "every mesh of the families, every encoding (missing sides on the left and right), every sequence of operations up to the bound; every state of a face connection and every operation on it",
  "Tests set up boundary cells once on two meshes and print them; faces without a left cell, repeated calls and later traversals are not covered.",
  [M + "MeshElements/MeshElements.h", M + "MeshElements/CellBoundaryConnection.h", M + "MeshElements/CellConnection.h", M + "UnstructuredMeshDefine.h"],
  [("appending boundary cells", M + "MeshElements/MeshElements.h"), ("marks in the index", M + "UnstructuredMeshDefine.h"), ("left/right dispatch", M + "MeshElements/CellBoundaryConnection.h")],
  "Exhaustive operation sequences to depth 3 (4) on the families; the connection class over its complete small state space.")
P("M10", "centres and measures are the geometric ones",
  "The computed centre of an edge is its midpoint, that of any other element the mean of the centres of its boundary elements (for the tessellated method the centroid of the face's surface in 3D); lengths, areas and volumes agree with the exact geometry for planar convex elements in 2D, 3D and 4D, and for curved faces with the volume bounded by the triangles of the tessellation. The result does not depend on numbering, orientation or left/right assignment; vertices stay unchanged; given centres are stored as they are.",
  ["inputs", "configurations"], "every mesh of the families in every encoding under every affine map of the menu, float and double, both methods",
  "Tests compare the measures of two meshes with one orientation; degenerate choices of vectors or encodings only appear for other meshes.",
  [M + "MeshFunctions/ComputeCenters.h", M + "MeshFunctions/ComputeMeasures.h", M + "MeshFunctions/GetCenters.h", M + "UnstructuredMesh.h"],
  [("means over boundary elements", M + "MeshFunctions/ComputeCenters.h"), ("pyramids over boundary elements by Gram-Schmidt", M + "MeshFunctions/ComputeMeasures.h")],
  "Compared with closed formulas (shoelace, vector area, divergence theorem, Gram determinants) in extended precision, tolerance 1e-9 relative to the size (2e-4 for float). Cells must be star-shaped with respect to their centre.")
P("M11", "face normals are unit, orthogonal and point as documented",
  "For every face the normal has unit length, is perpendicular to all edges of the face and points from the left to the right cell in 3D, to the right of the edge direction in 2D, and consistently to the side of the left cell above 3D, whichever side lacks a cell and whether boundary cells are set up; the tessellated method agrees on planar faces, and for curved faces gives the vector area over the area.",
  ["inputs", "configurations"], "every mesh of the families in every encoding under every affine map of the menu including reflections, float and double, without and with boundary cells",
  "Tests print normals of two meshes; faces without a left cell and reflected numbering are what inverts the sign.",
  [M + "MeshFunctions/ComputeNormals.h", M + "MeshFunctions/GetCenters.h"],
  [("orthogonalization of the vector to the cell centre", M + "MeshFunctions/ComputeNormals.h")],
  "Every face of every enumerated mesh; tolerance 1e-8 (2e-3 for float). The orientation above 3D is the one the test suite expects.")
P("M12", "data containers hold one value per element of each dimension",
  "After allocation by a mesh or by another container a MeshDataContainer (also of a tuple of types) has, for every mapped dimension, exactly one value per element, equal to the initial value if one was given and value-initialized otherwise. Access by element, by element index, by position, by dimension (the first array of that dimension) and by attribute of its traits reaches exactly that one entry; at() of an element without data throws out_of_range. Copies are independent, moves keep all values.",
  ["inputs", "configurations", "histories"], "every list of dimensions and types of the menu, every mesh size, every element and way of access, every sequence of operations up to the bound",
  "Tests allocate a few containers and read single entries; repeated dimensions, the tuple variant and constant access are template code that is not even compiled by them.",
  [M + "MeshDataContainer/MeshDataContainer.h", M + "MeshDataContainer/MeshDataContainerTraits"],
  [("arrays by position", M + "MeshDataContainer/MeshDataContainer.h"), ("position of a dimension", M + "MeshDataContainer/MeshDataContainer.h")],
  "After each write through each way of access all entries of the container are compared with a model of plain vectors, so an access that reaches another or a second entry is seen. Which values survive allocation over previous contents is not claimed.")
P("M13", "cell data exported to VTK belong to their cells and are read back",
  "Exporting traited cell data writes one column per attribute under its name (numbers as SCALARS, vectors of the mesh dimension as VECTORS, square tensors as TENSORS, completed by zeros to 3D), with one entry per written cell, the pieces of a split cell carrying the data of their cell; the announced count is the number of written cells. Reading such a file back, from the stream the mesh was read from or another, gives every cell its values, wherever the columns stand in the file, whatever its title and other columns are called and whatever data the points have.",
  ["inputs", "configurations", "histories"], "every subset of split cells, every kind of data container and trait selection of the menu, every order of columns, every sequence of changes between the files of one writer",
  "One test writes data of unsplit cells; the mapping of data to split cells has a separate state machine, and most template paths were never compiled.",
  [M + "MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h", M + "MeshDataContainer/MeshDataIO/VTKMeshDataReader.h", M + "MeshIO/MeshWriter/VTKMeshWriter.h"],
  [("merge of written cells and backward mapping", M + "MeshDataContainer/MeshDataIO/VTKMeshDataWriter.h"), ("index of columns by name", M + "MeshDataContainer/MeshDataIO/VTKMeshDataReader.h")],
  "Files are parsed by a strict parser of the harness and compared exactly (17 digits). Missing columns, character attributes, names with spaces and meshes without cells are not claimed.")
P("M14", "sub-element lists and elements keep exactly what was stored",
  "A list of sub-elements, of bounded or unbounded capacity, behaves as a sequence under additions, removals, copies, assignments and exchanges in every way of iterating (backwards included) and compares equal exactly to lists of the same sub-elements; an addition beyond the capacity and a removal beyond the end of a bounded list throw and change nothing. New elements hold invalid indices and zero centres and flags whatever the memory held; setters change exactly their field, also in copies; elements by index, by dimension and by name are the same objects.",
  ["histories", "configurations"], "every sequence of operations up to the bound, every index of lists up to 300 sub-elements, static and dynamic capacity, several index types",
  "No test removes a sub-element (it did not compile) or fills a list to its capacity.",
  [M + "MeshElements/MeshElement.h", M + "MeshElements/MeshElements.h", M + "MeshElements/ElementIndex.hpp"],
  [("SubelementContainer", M + "MeshElements/MeshElement.h")],
  "All operation sequences to depth 6 (7) over capacities 1 to 4 and unbounded. Removal beyond the end of an unbounded list is undefined behaviour of the vector underneath and not claimed.")
P("M15", "load and write choose the format by the file extension",
  "UnstructuredMesh::load and write pick VTK or FPMA by the extension of the path alone (whatever the directories and the rest of the name), through every overload; the file is exactly what the writer of that format produces for the given types and header (all polyhedra, respectively polygons, without types), a writer of the other format that was passed is replaced, and the returned reader or writer is of the format. The global locale of the program changes neither the files nor what is read. Unknown extensions change neither mesh nor file; files that cannot be opened are reported by runtime_error.",
  ["inputs", "configurations", "histories"], "every path of the menu, overload, previous writer, mesh, existing file and sequence of writes through one writer up to the bound",
  "Tests load and write a few files with plain names.",
  [M + "UnstructuredMesh.h"],
  [("comparison of the extension", M + "UnstructuredMesh.h"), ("replacement of the writer", M + "UnstructuredMesh.h")],
  "Exhaustive over the menus, on real files in a scratch directory.")
P("M16", "edge orientation and cell distances match the geometry",
  "edgeIsLeft and edgesOrientation report an edge of a face as left exactly if it runs counter-clockwise around the centre of the face, seen against the face normal in 3D; computeCellsDistance gives the distance between the centres of the two cells of a face and computeCellsCenterDifference the vector from the left to the right one, where a missing cell is replaced by the face centre or, if set up, by the centre of the boundary cell.",
  ["inputs", "configurations"], "every mesh of the families in every encoding under every affine map of the menu, without, with and with displaced boundary cells",
  "No test checks these values; signs depend on which side misses a cell.",
  [M + "MeshFunctions/EdgesOrientation.h", M + "MeshFunctions/CellsDistance.h", M + "MeshFunctions/ComputeCellsCenterDifference.h"],
  [("orientation by a triple product", M + "MeshFunctions/EdgesOrientation.h"), ("choice of the centre per side", M + "MeshFunctions/CellsDistance.h")],
  "Every face of every enumerated mesh. Cells whose centre lies on the line of an edge are left out for edgeIsLeft.")
P("M17", "the mesh signature changes with every change of the mesh",
  "updateSignature returns the same value as long as nothing in the mesh changes, and a different one after any single change of mesh data: a coordinate, a sub-element, an edge end, a left or right cell, the boundary lists, a centre, a cell type, the number of elements, or the exchange of two vertices, faces, cells or sub-elements. Different meshes of the families have different signatures. It depends on the mesh alone: equal meshes have the same signature, wherever their elements lie in memory and however they came there (built, read, copied, assigned, moved).",
  ["inputs", "histories"], "every single change of any field and every transposition, in meshes of all the cell kinds, static and dynamic storage; every way of making an equal mesh, in memory of several contents",
  "One test compares two signatures; a hash that combines commutatively or ignores a field passes it.",
  [M + "MeshElements/MeshElements.h"],
  [("hash over vertices, edges, faces and cells", M + "MeshElements/MeshElements.h")],
  "Exhaustive over all single changes of the stated meshes. A 64-bit hash may collide in general; none of the enumerated pairs does.")
P("M18", "mesh data are stored, shown and aggregated completely",
  "A MeshDataContainer with any value type and any number of arrays and elements can be written to the binary serializer and read back into any container of its type with equal contents (alone, in lists, maps and attributes, through files); printing shows every array under the name of its dimension with all its values; sum, max and min run over all values of all arrays. The lists returned by the mesh functions can be stored (values) and shown, and element indices, also of constant containers, are used as numbers.",
  ["inputs", "configurations"], "every container shape and value type of the menus, every combination of sizes, every previous content",
  "No test combines the mesh with the serializer or the printers; these instances are chosen by the compiler.",
  [M + "MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h", M + "MeshDataContainer/MeshDataContainerTraits/MeshDataContainerIOTraits.h", M + "MeshDataContainer/MeshDataContainerTraits/MeshDataContainerArithmeticTraits.h", M + "MeshElements/ElementIndex.hpp"],
  [("attributes of a container", M + "MeshDataContainer/MeshDataContainerTraits/MeshDataContainerTraits.h")],
  "Exhaustive within the bounds. Max and min of containers with an empty array and storing lists of element indices are not claimed.")
P("M19", "damaged mesh and data files are refused",
  "A mesh file (VTK or FPMA) that ends too early, lacks a section, holds something else than a number where a number is due, announces another number of elements than it holds, refers to a vertex or face that does not exist, or whose device fails while it is read, and a VTK data file that lacks a column or some of its values, is refused by an exception, by the readers as well as by load; such a file never delivers a mesh or data silently. The mesh and the reader can then load a good file as usual.",
  ["inputs", "crash_points"], "every byte after which a file of the families can end, every token and every kind of damage to it, every layout, both formats; every column and value of the data",
  "The tests read undamaged files only; an interrupted copy or a full disk leaves a file cut anywhere.",
  [M + "MeshIO/MeshReader/VTKMeshReader.h", M + "MeshIO/MeshReader/FPMAMeshReader.h", M + "MeshDataContainer/MeshDataIO/VTKMeshDataReader.h", M + "UnstructuredMesh.h"],
  [("state of the stream after each value", M + "MeshIO/MeshReader/MeshReader.h"), ("position of the columns", M + "MeshDataContainer/MeshDataIO/VTKMeshDataReader.h")],
  "Every cut and every damage of one token of the files of the families; damage that leaves a well-formed file (another valid number) is outside the property, several damages at once rest on the small-scope argument.",
  technique="exhaustive exploration of all cut points and single-token damages on the real code against an independent grammar")
P("M20", "a mesh is written completely or the failure is reported",
  "If the file cannot take the whole mesh, UnstructuredMesh::write reports it by a runtime_error, wherever the writing stops, in both formats and through every overload; without an error the file is complete. The mesh does not change, and when there is room again the same objects write the whole file.",
  ["inputs", "crash_points", "configurations"], "every byte at which the device refuses further data, every overload, format, mesh and type assignment of the menus",
  "No test writes to a device that fills up.",
  [M + "UnstructuredMesh.h"],
  [("state of the file after it is closed", M + "UnstructuredMesh.h")],
  "Every byte of the small files, a dense menu (all buffer boundaries) for the large ones; the fault is injected by the file size limit of the process and by /dev/full.",
  technique="exhaustive fault injection at every write offset on the real code")
B = "src/GTMesh/BinarySerializer/"
P("S01", "every serialized value is read back equal",
  "For every serializable type (numbers, enums, strings, standard and TNL-like containers, arrays, pairs, tuples, classes with traits or custom functions, nested arbitrarily) a value that was written is read back equal whatever the target contained before, through the static functions, write/read and the operators alike. Reading consumes exactly the bytes written and changes nothing else; sequence containers of equal elements are interchangeable; bound traits write and read exactly the bound attributes of their classes, wherever these stand in the object.",
  ["inputs", "configurations"], "every type built from the supported ones, every value, every previous content of the target, every position in the data",
  "The tests round-trip one value of five types into empty targets; wrong serializer selection, left-overs in the target or off-by-some consumption depend on the type and the value.",
  [B + "BinarySerializer.h", B + "Serializers", "src/GTMesh/Traits/Interfaces"],
  [("selection of the serializer", B + "BinarySerializer.h"), ("serializers", B + "Serializers"), ("container interfaces", "src/GTMesh/Traits/Interfaces")],
  "62 type instances, all values of bounded size for each; nesting beyond depth 3 rests on compositionality (which is itself checked: bytes of a sequence are the concatenation). Truncated or corrupted input is outside the property.")
P("S02", "a serializer delivers all values in order over every history",
  "Over any history of writing, reading, clearing, resetting, copying, assigning, saving and loading, every read returns the values in the order they were written, each once; after the last one reading starts again with the first. Copies continue from the same position and are independent; loading a file replaces the content and starts from its beginning.",
  ["histories"], "every interleaving of the operations up to the stated length, every position at which the storage may move",
  "Tests write everything and then read everything; reads between writes, copies and reloads only fail when the storage moves.",
  [B + "BinarySerializer.h"],
  [("read position", B + "BinarySerializer.h")],
  "All operation sequences to depth 6 (7) with address sanitizer as part of the oracle, plus all (writes, reads, writes) triples up to 40 (90).")
P("S03", "saving either stores all data or reports it",
  "saveToFile followed by loadFromFile restores exactly the bytes, whatever the file held before and whatever they are; a file that cannot be opened is reported by an exception by both, leaving the data as they were; if writing fails at any point, saveToFile throws and the data in memory are unchanged; if reading fails at any point or the file ends early, loadFromFile throws and the data and the position in memory stay as they were.",
  ["inputs", "crash_points"], "every content length up to the bound, every byte value, every point at which the device refuses further data or delivers no more",
  "Tests never see a full disk, a missing file, or a longer old file.",
  [B + "BinarySerializer.h"],
  [("saveToFile, loadFromFile", B + "BinarySerializer.h")],
  "Every failing offset of every length up to 260 (700) bytes enumerated by a file size limit on the real write path, and every offset at which read() fails, ends early or delivers pieces; durability after a power loss is not claimed.")
T = "src/GTMesh/Traits/"
P("T01", "traits give exactly the described attributes",
  "Default traits list the attributes in the declared order under the declared names and count. For every way to describe an attribute (member, getters and setters of all kinds, functions, lambdas, bind expressions) and every way to reach it (by index, name visit, reference, through a pointer or an object), reading yields the value of that attribute, setting changes that attribute and nothing else, references refer to the member itself. Traits for a purpose override the general ones.",
  ["inputs", "configurations", "histories"], "every accessor kind, access path, attribute count from 1 to 20, macro and sequence of sets",
  "The tests use three classes with up to four attributes and few accessor kinds; the macros are written out separately for each count.",
  [T + "Traits.h", T + "MemberAccess/MemberAccess.h", T + "MemberAccess/AccessType.h", "src/GTMesh/Macros/MacroForEach.h"],
  [("accessor classes", T + "MemberAccess"), ("attribute storage and visiting", T + "Traits.h")],
  "Sequences of sets to depth 2 (3) over 12 accessor kinds and 7 access paths; all counts and macros. Attribute counts above 20 are not explored.")
P("T02", "bound traits are used for exactly their class",
  "When traits are bound to an object, the first bound traits of a class are used for that class, whatever else is bound and in which order; for classes without bound traits the default traits of the purpose (IO, arithmetics), then the general default traits are used; without any the selection is invalid. The bound object is referred to, not copied.",
  ["configurations"], "every list of bound traits up to length 3 over three classes with and without defaults",
  "The selection happens at compile time by position; tests bind one traits object.",
  [T + "TraitsBind/TraitsBind.h", T + "Traits.h"],
  [("selection of traits", T + "TraitsBind/TraitsBind.h")],
  "All lists up to 3 bound traits of 5, by reference and by value.")
P("T03", "arithmetic of traited classes acts on each attribute",
  "For every class with arithmetic traits (nested to any depth) addition, subtraction, multiplication, scaling, division, powers, roots, exponentials, logarithms, negation and absolute value compute the operation for each attribute in the type of the attribute, with the operands in their order, for constants, variables and temporaries alike; assignments return their left side; operands and attributes outside the traits do not change. Max, min and sum run over all attributes, and over all elements of containers.",
  ["inputs", "configurations"], "every class shape, attribute type, operator, value category and operand value of the menus",
  "Tests compute with one class of doubles; integer attributes, temporaries, aliased operands and nested classes go untested.",
  [T + "TraitsAlgorithm/TraitsAlgorithm.h"],
  [("element-wise operators", T + "TraitsAlgorithm/TraitsAlgorithm.h")],
  "Exhaustive over operand menus (7 x 3 fillings per operand); rounding of float attributes is compared with a tolerance. Operators that return a reference to a temporary operand are used only within the full expression.")
V = "src/GTMesh/NumericStaticArray/"
P("T04", "vector algebra is exact in every coordinate",
  "For vectors of any dimension and coordinate type addition, subtraction, scaling by and division by any number (also one of the vector's own coordinates), in the pure, assigning and aliased forms, compute each coordinate by itself; the scalar product, sum of squares and norm are those of the coordinates in the coordinate type; the vector product is orthogonal to both factors and antisymmetric; equality compares all coordinates; lists shorter than the dimension fill up with zeros and longer ones are cut.",
  ["inputs", "configurations"], "every pair of vectors over the value menus, dimensions 1 to 9, integer and floating coordinate types, scalars of any type",
  "No test touches the vector class; integer coordinates and aliasing are never used by the mesh code that is tested.",
  [V + "Vertex.h", V + "Vector.h", V + "InlineArrayOperations.h"],
  [("recursive inline operations", V + "InlineArrayOperations.h"), ("operators", V + "Vertex.h")],
  "Exhaustive over the value menus; floating results compared within 4 ulp. Overflowing integer products are outside the property.")
P("T05", "Gram-Schmidt orthogonalizes without changing the span",
  "For any linearly independent vectors all four variants of gramSchmidt leave vectors that are pairwise orthogonal, each being its original minus its projection on the previous ones; with norms given, the vectors are of unit length and the norms are those of the orthogonalized vectors (resized to their number), whose product is the volume spanned.",
  ["inputs", "configurations"], "every tuple of independent vectors over small integer coordinates, up to 4 vectors in up to 5 dimensions, every overload, index and real type",
  "It is only reached through measures of meshes of one shape in the tests; the overloads are four separate copies.",
  [V + "GramSchmidt.h"],
  [("projection coefficients", V + "GramSchmidt.h")],
  "Exhaustive over integer tuples; compared with an extended precision model within 1e-9 (3e-3 for float).")
P("T06", "compile-time loops, selection and macros cover every index once",
  "constexprFor runs its functor exactly once for each index from start to stop by step, in order, with the arguments of the call, and not at all for an empty range. ClassSelector yields the first class whose condition holds, else the last. FOR_EACH applies its macro to each of up to 40 arguments (single, pairs, pairs with a fixed first argument, every second one) once and in order. A singleton is made once, at its first use, and keeps its state.",
  ["configurations", "histories"], "all ranges and steps up to 25, all condition outcomes of up to 4 classes, all argument counts up to 40, all access histories of length 5",
  "The macros are written out one line per argument count; tests use two or three counts.",
  ["src/GTMesh/Utils/ConstexprFor.h", "src/GTMesh/Utils/ClassSelector.h", "src/GTMesh/Macros/MacroForEach.h", "src/GTMesh/Singleton/Singleton.h"],
  [("index recursion", "src/GTMesh/Utils/ConstexprFor.h"), ("macro per count", "src/GTMesh/Macros/MacroForEach.h")],
  "Exhaustive within the bounds. Singletons are not claimed to be thread safe; loops counting down are not claimed.")
D = "src/GTMesh/Debug/"
P("D01", "printing shows the whole value, unambiguously",
  "Exporting any value to a stream prints all of it once, recursively: numbers, truth values, texts and characters in quotes, pairs, tuples, lists, maps, indexable and nested traited classes with every attribute under its name in order, with the traits bound for a class where given; classes that cannot be printed show their bytes. The state of the stream (fill, base, precision) set by the user applies and is left as it was.",
  ["inputs", "configurations"], "every combination of container kinds, element types, values, bound traits, and stream states",
  "Tests check a few values of a few types; the selection of the printer is decided by the compiler per type and fails for combinations nobody printed.",
  [D + "VariableExport.h", D + "Printers"],
  [("selection of the printer", D + "VariableExport.h"), ("printers", D + "Printers")],
  "97 type instances with all values of bounded size, text compared with an independent printer.")
P("D02", "printing to the standard output shows the same text",
  "For every value the export to stdio prints the text that the export to a stream prints (bytes apart, which print as numbers), with the same bound traits, and compiles for the same types.",
  ["inputs", "configurations"], "every type, value and binding of D01",
  "The two outputs are separate code for every type; only the stream half is tested.",
  [D + "VariableExport.h", D + "Printers"],
  [("stdio half of the printers", D + "Printers")],
  "The families of D01. Classes without printer are left out (stdio names the bytes only).")
P("D03", "the JSON log is well formed and complete",
  "Whatever is logged (values of any type, any bytes in texts, any expression, file name and name of an attribute), over any history of writing, re-creating, handing over (moving) and destroying logs, and whatever the global locale of the program, each file is one valid JSON document listing every call in order with its line, function and file, and each variable with its expression and its value: numbers as numbers, texts exactly, traited classes and maps with text keys as objects, lists as arrays.",
  ["inputs", "histories"], "every value type and content, every sequence of log operations, including the end of the program",
  "The test writes one log of friendly values; quotes, control characters, non-finite numbers, and logs re-created or destroyed mid-way break the document only when they occur.",
  [D + "JSONLogger.h", D + "VariableExport.h", D + "Printers", D + "Debug.h"],
  [("document structure over the life of the logger", D + "JSONLogger.h"), ("escaping of texts", D + "Printers")],
  "Every log parsed by a strict independent JSON parser and compared with the values logged. User-defined PrintTo output is outside the property.")
P("D04", "the HTML log shows everything that was logged",
  "The HTML log is complete after any history of writes, creation, handing over (moving) and destruction: its head and tail are there once, and every logged variable appears in order with line, function, file, expression and a value that reads back as the logged value, whatever characters it holds and whatever the global locale of the program.",
  ["inputs", "histories"], "every value type and content, every sequence of log operations",
  "No test reads the HTML log; an apostrophe in an expression, or </script> in a text, silently kills the script that displays the page.",
  [D + "HTMLLogger.h", D + "VariableExport.h", D + "Debug.h"],
  [("script lines of the log", D + "HTMLLogger.h"), ("escaping", D + "Printers")],
  "The script lines are decoded by an independent JavaScript literal reader, which also looks for text that would end the script; the page itself is D06.")
P("D05", "debug macros report the right place and evaluate once",
  "The console logger prints each variable with its expression, file, line and function according to the options set, in any sequence of settings, copies and outputs; the macros evaluate each expression exactly once (not at all when their condition is false), for any number of expressions, on the stream they are named for; with UNDEBUG none of them evaluates, prints or writes anything, code guarded by DBGTRY still runs, and the whole library compiles, works the same and prints nothing of its own.",
  ["histories", "configurations"], "every sequence of options and outputs, every macro, every number of expressions up to 40, both with and without UNDEBUG",
  "Tests never read the console output and never build with UNDEBUG.",
  [D + "ConsoleLogger.h", D + "Debug.h"],
  [("header and options", D + "ConsoleLogger.h"), ("macros", D + "Debug.h")],
  "All option/output sequences to depth 4 (5); macros run in child processes whose exit code and both outputs are compared.")
P("D06", "the page of the HTML log shows and filters its records",
  "Opened in a browser, the page of an HTML log shows every logged record once, in order, with its group, line, file, expression and value as they were logged, whatever characters they contain; the filter shows exactly the records of the selected line that a filter of the values selects (all of them when there is none), with the whole groups of those selected by a group filter, each record once; showing all data, adding filters and filtering again, in any order, never lose a filter or a record.",
  ["histories", "configurations"], "every page of up to 3 calls with every pair of filters, and every session of actions on the page",
  "Tests never open the page: its script is not executed by any of them.",
  [D + "HTMLLogger.h"],
  [("page script", D + "HTMLLogger.h")],
  "The page written by the real logger is executed by node over a small document model; each button press is a transition, the table shown after it is compared with an independent model of the filter.")
P("C01", "mesh operations do not disturb each other",
  "Operations on different meshes, data and files, and operations that only read a common constant mesh, run by several threads at once are free of data races and each gives the result it gives alone. The same holds for an operation started from within a callback of another one on the same or another mesh.",
  ["schedules", "inputs"], "every pair and the triples of 21 mesh operations, on the same and different meshes of dimension 2 to 4, every schedule of their conflicting accesses, every callback of every operation as the place where another one starts",
  "No test starts a thread or nests operations; an interleaving or a callback at which a hidden common state matters cannot be sampled by them.",
  ["src/GTMesh/UnstructuredMesh/UnstructuredMesh.h", M + "MeshFunctions/MeshApply.h", M + "MeshFunctions/MeshConnections.h", M + "MeshIO/MeshReader/VTKMeshReader.h", M + "MeshIO/MeshWriter/VTKMeshWriter.h"],
  [("algorithms keep their state in local variables", M + "MeshFunctions/MeshApply.h"), ("constant members without caches", "src/GTMesh/UnstructuredMesh/UnstructuredMesh.h"), ("state of readers and writers in their objects", M + "MeshIO/MeshWriter/VTKMeshWriter.h")],
  "Threads run under a controlled scheduler that sees every access of the compiled library; a pair without conflicting accesses has one class of schedules, which is executed; preemption points beyond the bound of the tier are not executed.",
  technique="controlled scheduling of the real code with happens-before race detection: every operation pair, every callback and bounded preemption points enumerated",
  observe=["results of each operation", "pairs of conflicting unordered accesses"])
P("C02", "serialization, output and traits do not disturb each other",
  "Serializing, deserializing, printing, converting, logging to different logs, access through traits, arithmetic of traited classes, of vectors and of mesh data, on different objects or reading a common constant object, run by several threads at once are free of data races and give the results they give alone, in every order of the first uses of the descriptions of classes.",
  ["schedules", "inputs"], "every pair and the triples of 15 operations on common and different values, every schedule of their conflicting accesses",
  "No test starts a thread; the descriptions of the classes are global objects made on first use, so the first uses by two threads matter.",
  ["src/GTMesh/BinarySerializer/BinarySerializer.h", "src/GTMesh/Traits/Traits.h", "src/GTMesh/Singleton/Singleton.h", D + "VariableExport.h", "src/GTMesh/NumericStaticArray/GramSchmidt.h"],
  [("accessors of a class are shared and never written", "src/GTMesh/Traits/Traits.h"), ("output keeps its state in the stream", D + "VariableExport.h")],
  "As C01; process-wide loggers of the macros (DBG...) are common objects by design and not claimed.",
  technique="controlled scheduling of the real code with happens-before race detection: every operation pair, every callback and bounded preemption points enumerated",
  observe=["results of each operation", "pairs of conflicting unordered accesses"])
