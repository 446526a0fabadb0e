"""The text of the properties."""


def P(id, title, statement, over, text, why, files, mech, note=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=["src/meshio/" + f for f in files],
                          mechanism=[dict(name=n, where="src/meshio/" + w) for n, w in mech], hook_needed=None))
    if note:
        d["note"] = note
    return d


WHY = ("The tests round-trip a handful of fixed meshes with fixed numbers, mostly float64 and one or two blocks; they cannot "
       "quantify over values, dtypes, block orders, numbers of components, memory layouts and options. ")
IC = ["inputs", "configurations"]

PROPS = [
    P("C01", "Legacy VTK files hold exactly the mesh that was written",
      "Writing a mesh to a legacy VTK file (version 5.1, the default, or 4.2; binary or ASCII) and reading it back yields the same "
      "points, the same cell blocks in order with the same connectivity, and the same point and cell data with the same values "
      "and types, for every VTK cell type meshio can name, every numeric dtype, byte order and memory layout. Two-dimensional points "
      "and two-component vectors come back padded with a zero third component; adjacent blocks of the same type may be merged. Legacy files of other producers -- unstructured "
      "grids, structured points, rectilinear and structured grids of one to three dimensions, with SCALARS, VECTORS, TENSORS, FIELD, lookup tables, color scalars and "
      "metadata in any order and VTK's own type names, versions 2.0 to 5.1 -- are read to the values they store.",
      IC, "all coordinates, connectivity and data values; all supported cell types and block sequences, dtypes, layouts, file versions and encodings",
      WHY + "Mixed blocks with data, 8/16 bit and unsigned types, big-endian or strided arrays and Lagrange cells are not tested.",
      ["vtk/_main.py", "vtk/_vtk_42.py", "vtk/_vtk_51.py", "_vtk_common.py", "_common.py"],
      [("reader/writer of VTK 5.1", "vtk/_vtk_51.py"), ("reader/writer of VTK 4.2", "vtk/_vtk_42.py"), ("cell type table, cell splitting", "_vtk_common.py")]),
    P("C02", "VTU files hold exactly the mesh that was written; foreign layouts read",
      "Writing a mesh to VTU (binary with zlib, LZMA or no compression, or ASCII) and reading it back yields the same points, cell blocks "
      "(polyhedra included) in order, and point and cell data (ASCII: to 12 significant digits). VTU files of other producers in the "
      "layouts the reader accepts (inline or appended data, raw or base64, compressed in several blocks, 32/64 bit headers, either byte order, several "
      "pieces) are read to the values they store.",
      IC, "all coordinates, connectivity and data values; supported cell types, dtypes, compression and encodings, header types, byte orders",
      WHY + "Only small compressed files are tested; multi-block compression, several pieces, appended data with arbitrary offsets, and polyhedra with cell data are not.",
      ["vtu/_vtu.py", "_vtk_common.py", "_cxml/etree.py"],
      [("VtuReader: headers, blocks, appended data", "vtu/_vtu.py"), ("write: block-wise compression", "vtu/_vtu.py")]),
    P("C03", "Gmsh MSH 2.2, 4.0 and 4.1 files hold exactly the mesh that was written",
      "Writing a mesh to Gmsh MSH 2.2, 4.0 or 4.1 (ASCII or binary) and reading it back yields the same points, cells, node order of "
      "every cell type, point and cell data, physical and geometrical tags, named physical groups and periodic links (ASCII data to 16 "
      "digits). Files of other producers with arbitrary (sparse, unordered) node and element numbers are read with every cell "
      "and data value attached to the right points and cells.",
      IC, "all coordinates, connectivity, tags, data and node/element numbers; supported cell types, block sequences, versions, encodings",
      WHY + "Node numbers other than 1..n, unordered entity blocks, several blocks of one type with data and periodic data are covered by a few sample files only.",
      ["gmsh/main.py", "gmsh/_gmsh22.py", "gmsh/_gmsh40.py", "gmsh/_gmsh41.py", "gmsh/common.py"],
      [("node number maps", "gmsh/_gmsh41.py"), ("tag and node-order conversion", "gmsh/common.py"), ("version dispatch", "gmsh/main.py")]),
    P("C04", "XDMF files hold exactly the mesh that was written",
      "Writing a mesh to XDMF (inline XML, binary side files, HDF5 with or without compression) and reading it back yields the same points in 2D or "
      "3D, the same cell blocks in order with the same connectivity (single-type or mixed topologies), and the same point and cell data "
      "with the same types and component shapes, whatever characters the data names hold. XDMF 2 and 3 files of other producers in inline XML are read to the values they store.",
      IC, "all coordinates, connectivity and data values; supported cell types, block sequences, dtypes, component counts, data formats",
      WHY + "Mixed topologies are tested for few combinations of types; integer widths, unsigned types, tensors and names with special characters are not.",
      ["xdmf/main.py", "xdmf/common.py", "_cxml/etree.py"],
      [("mixed topology encoding", "xdmf/common.py"), ("data items", "xdmf/main.py")]),
    P("C05", "XDMF time series give back every step's time, points, cells and data",
      "A time series written step by step (any number of steps, each with its own point and cell data, in inline XML, binary or HDF5 storage) reads back "
      "the same points and cells, and for every step index, read in any order and repeatedly, the same time and exactly that step's "
      "point and cell data.",
      ["inputs", "configurations", "histories"], "all times, coordinates, connectivity and data of each step; sequences of write and read calls",
      WHY + "The tests write two or three steps of one mesh with fixed data and read them in order.",
      ["xdmf/time_series.py", "xdmf/common.py"],
      [("TimeSeriesWriter: shared geometry by XInclude, numbered data items", "xdmf/time_series.py"), ("TimeSeriesReader.read_data", "xdmf/time_series.py")]),
    P("C06", "HDF5-based formats (MED, H5M, CGNS, HMF) give back the mesh written",
      "Writing a mesh to MED, H5M, CGNS or HMF and reading it back yields the same points, cell blocks and connectivity, with point data "
      "(MED, H5M, HMF), cell data (MED, HMF) and MED point/cell tags with their names, for every cell type the format takes (MED: fifteen linear and "
      "quadratic types, one block each; H5M: line, triangle, tetra; CGNS: one tetra block; HMF: any number of blocks of any XDMF type). MED fields "
      "given on several time steps, on part of the cells (profiles) or at the nodes of each element are read with every value attached to its point or cell.",
      IC, "all coordinates, connectivity, data and tag values; block sequences, dtypes, component counts, memory layouts, compression options",
      WHY + "The MED transposes between row- and column-major storage, per-type sections and HDF5 key order are only exercised on few symmetric samples.",
      ["med/_med.py", "h5m/_h5m.py", "cgns/_cgns.py", "hmf/_hmf.py"],
      [("column-major storage of points, cells and fields", "med/_med.py"), ("tags, id ranges", "h5m/_h5m.py"), ("per-block datasets", "hmf/_hmf.py")]),
    P("C07", "Exodus files give back points, cells, point data and point sets; foreign files",
      "Writing a mesh to Exodus and reading it back yields the same points (2D or 3D), cell blocks in order with the same connectivity for every "
      "cell type meshio can write, point data of up to any number of components, and named point sets. Exodus files of other producers "
      "(coordinates in separate variables, element variables given per block and variable number, the documented element names and their aliases) are read "
      "to the values they store.",
      IC, "all coordinates, connectivity, node and element values, set members; block sequences, dtypes, component counts, element names",
      WHY + "Element variables on several blocks, ten or more blocks or variables, and most element names are not tested.",
      ["exodus/_exodus.py"],
      [("categorize: components by name suffix", "exodus/_exodus.py"), ("element variables and blocks by number", "exodus/_exodus.py")]),
    P("C08", "Abaqus files give back points, cells and sets; foreign numbering is resolved",
      "Writing a mesh to an Abaqus .inp file and reading it back yields the same points, cell blocks in order with the same connectivity, point sets "
      "and cell sets (per block). Input files of other producers with arbitrary distinct node and element numbers, several NODE and ELEMENT "
      "sections, elements over several lines, ELSET/NSET given by numbers, by other set names, by GENERATE or on the ELEMENT line, and INCLUDE files are read so "
      "that every cell and set refers to the right points and cells.",
      IC, "all coordinates, connectivity, node and element numbers, set members; sequences of sections; element names",
      WHY + "The tests check counts and sums of a few sample files; numbering, sets over several blocks, and sets of sets are not compared.",
      ["abaqus/_abaqus.py"],
      [("node and element number maps", "abaqus/_abaqus.py"), ("set merging", "abaqus/_abaqus.py")]),
    P("C09", "Nastran bulk data gives back points and cells; foreign numbering resolved",
      "Writing a mesh to Nastran bulk data in any of the point and cell field formats (free, fixed-small, fixed-large) and reading it back yields the "
      "same points (fixed-large and free: to the 9 to 12 significant digits that fit a field of 16 characters), the same cell blocks in order with the same connectivity, and point and cell references; second-order wedges and hexahedra are "
      "stored in Nastran's node order. Files of other producers in free, small or large fields, with continuation lines, comments and arbitrary distinct node and element numbers are read so that "
      "every cell refers to the right points.",
      IC, "all coordinates (any sign and decimal exponent), connectivity, references and node/element numbers; element names, field formats, block sequences",
      WHY + "Negative numbers, three-digit exponents, cards with continuation lines in each field format and sparse node numbers are not tested.",
      ["nastran/_nastran.py"],
      [("field parsing, continuation lines", "nastran/_nastran.py"), ("number formatting", "nastran/_nastran.py"), ("node order of second-order cells", "nastran/_nastran.py")]),
    P("C10", "Medit ASCII and binary files give back points, cells and labels",
      "Writing a mesh to Medit (.mesh or .meshb) and reading it back yields the same points (2D or 3D), the same cell blocks in order with the same "
      "connectivity, and the integer label of every point and cell. ASCII files and binary files of versions 1 to 4 in either byte order "
      "of other producers, with sections meshio does not know in between, are read to the values they store.",
      IC, "all coordinates, connectivity and labels; block sequences, dtypes, versions, byte orders, orders of sections",
      WHY + "The binary versions, byte orders and sections to skip are sampled by a few files whose sums only are compared.",
      ["medit/_medit.py", "medit/_medit_internal.py"],
      [("section table", "medit/_medit_internal.py"), ("binary positions, versions", "medit/_medit.py")]),
    P("C11", "UGRID files in all eleven layouts give back points, cells and boundary labels",
      "Writing a mesh with at most one block of each of the six UGRID cell types to UGRID (ASCII, C or Fortran binary, either byte order, 4 or 8 byte "
      "numbers, as the file name says) and reading it back yields the same points (in the precision of the layout), the same cells per type, and the integer labels of "
      "triangles and quads; pyramids are stored in UGRID's node order. Files of other producers in these layouts are read to the values they store.",
      IC, "all coordinates, connectivity and labels; orders of blocks, dtypes, layouts",
      WHY + "Labels, Fortran record marks and the pyramid's node order are not compared in every layout.",
      ["ugrid/_ugrid.py"],
      [("layout from the file name", "ugrid/_ugrid.py"), ("section order, record marks", "ugrid/_ugrid.py")]),
    P("C12", "Surface formats (PLY, STL, OBJ, OFF, WKT, Neuroglancer) keep the surface",
      "Writing points and triangles (PLY and OBJ also quads and polygons, PLY vertices and lines too) and reading them back yields the same "
      "points, blocks and connectivity, with scalar point data of every dtype in PLY and normals and texture coordinates in OBJ; STL and WKT give "
      "back every triangle's corners in order and never merge distinct or split equal corners. PLY files (ASCII or binary in either byte order, all scalar types, face properties), "
      "STL, OBJ (groups, relative indices, v/vt/vn triples), OFF and WKT TIN files of other producers are read to the values they store.",
      IC, "all coordinates, connectivity and data values; block sequences, dtypes, encodings, property orders",
      WHY + "Face properties, dtypes other than the defaults, big-endian PLY, and corner identity in STL/WKT are not tested.",
      ["ply/_ply.py", "stl/_stl.py", "obj/_obj.py", "off/_off.py", "wkt/_wkt.py", "neuroglancer/_neuroglancer.py"],
      [("ragged lists", "ply/_ply.py"), ("corner identification", "stl/_stl.py"), ("faces and groups", "obj/_obj.py"), ("TIN grammar", "wkt/_wkt.py")]),
    P("C13", "Text formats Tecplot, AVS-UCD, SU2, MDPA and PERMAS give back the mesh",
      "Writing a mesh and reading it back yields the same points and the same cells: Tecplot as one zone of the cells of the highest dimension (mixed types as "
      "degenerate quads or hexahedra) with scalar components of point and cell data; AVS-UCD the same blocks, point data, cell data and integer materials (15 digits); SU2 "
      "interior cells grouped by type and boundary cells with their tags; MDPA and PERMAS the same blocks. Files of "
      "other producers (Tecplot zones in point or block packing, arbitrary distinct node numbers in AVS-UCD, MDPA and PERMAS) are read to the values they store.",
      IC, "all coordinates, connectivity, data, tags and node numbers; block sequences, cell types, dtypes, header variants",
      WHY + "Mixed blocks with cell data, sparse node numbers, and most header variants are not tested.",
      ["tecplot/_tecplot.py", "avsucd/_avsucd.py", "su2/_su2.py", "mdpa/_mdpa.py", "permas/_permas.py"],
      [("zone header and packing", "tecplot/_tecplot.py"), ("node order and materials", "avsucd/_avsucd.py"), ("markers", "su2/_su2.py"), ("node numbers", "mdpa/_mdpa.py"), ("node order", "permas/_permas.py")]),
    P("C14", "FLAC3D, Netgen, TetGen, DOLFIN XML and ANSYS files give back the mesh",
      "Writing a mesh and reading it back yields the same points and the same cells: FLAC3D (ASCII, binary) faces, then zones (mirrored when not right-handed) with their cell "
      "sets; Netgen surface, volume, line and point cells with their integer index and named regions; TetGen all tetrahedra with their attributes and markers; DOLFIN XML all tetrahedra (else triangles) with "
      "scalar cell data; ANSYS (ASCII, binary) every block. Files of other producers with arbitrary node and cell numbers (FLAC3D), index bases, "
      "section variants and unordered entries are read to the values they store.",
      IC, "all coordinates, connectivity, indices, data and node/cell numbers; block sequences, cell types, dtypes, encodings",
      WHY + "Cell sets and data over several blocks, faces next to zones, second-order node orders and foreign numbering are not tested.",
      ["flac3d/_flac3d.py", "netgen/_netgen.py", "tetgen/_tetgen.py", "dolfin/_dolfin.py", "ansys/_ansys.py"],
      [("cell ids and groups, orientation", "flac3d/_flac3d.py"), ("node order, region index", "netgen/_netgen.py"), ("attributes and markers", "tetgen/_tetgen.py"),
       ("mesh functions", "dolfin/_dolfin.py"), ("zones", "ansys/_ansys.py")]),
    P("C15", "The mesh object keeps data with its cells and points; sets and data convert",
      "A Mesh is only accepted if every point data array has one row per point and every cell data entry one array per block with one row per cell. The views per cell type "
      "(cells_dict, cell_data_dict, cell_sets_dict, get_cells_type, get_cell_data) list cells, data and set members of all blocks of a type in the order of the cells, over any sequence of blocks. "
      "cell_sets_to_data, point_sets_to_data, cell_data_to_sets and point_data_to_sets keep every membership: entities are in the sets whose values they have, and other data is untouched. "
      "A copy shares nothing with the original.",
      IC, "all data values, connectivity and set members; sequences of blocks incl. repeated types and empty blocks; all lengths of data",
      WHY + "The tests check one mesh each, with a single block per type; set members in later blocks of the same type are not compared.",
      ["_mesh.py"],
      [("constructor checks", "_mesh.py"), ("per-type views", "_mesh.py"), ("sets and data", "_mesh.py")]),
    P("C16", "Writing a mesh leaves the mesh object as it was, in every format",
      "After meshio.write of a mesh to any of the output formats with any of their options -- whether it succeeds or is refused -- points, cells, point data, cell data, field data, point "
      "sets and cell sets of the Mesh hold the same values, shapes, dtypes and names in the same order as before.",
      IC, "all coordinates, connectivity and data values; every writer and its options; dtypes, byte orders, 2D points, sets, higher-order cells, special data",
      WHY + "The tests check this only indirectly, as a writer that changes its input changes the reference as well.",
      ["_helpers.py", "_mesh.py", "vtk/_vtk_42.py", "vtk/_vtk_51.py", "vtu/_vtu.py", "xdmf/main.py", "gmsh/main.py"],
      [("padding of 2D points and data", "vtk/_vtk_42.py"), ("sets as data", "vtu/_vtu.py"), ("reordering of nodes and cells", "gmsh/common.py")]),
    P("C17", "meshio.read/write pick the format of the file name or the one asked for",
      "meshio.write/read (and Mesh.write/read, write_points_cells) use the format of the file's longest known extension, whatever its case, directory, other dots or path type, and the format given by name "
      "wins over the extension; the result is the one of the format's own module. Each format name writes the format version it names (vtk42/vtk51, gmsh22/gmsh), a .msh "
      "file is read with the reader that fits its contents, buffers work like files. Cells whose number of nodes does not fit their type are refused before anything is written; unknown formats, "
      "missing files and missing format names of buffers are refused. Registered formats are tried in order and deregistering removes them.",
      IC, "all coordinates and connectivity; every registered extension and format name; all node counts of every cell type",
      WHY + "The tests write to one lower-case extension per format.",
      ["_helpers.py", "_files.py", "_mesh.py", "_common.py"],
      [("extension lookup", "_helpers.py"), ("fallback between readers", "_helpers.py"), ("node count check", "_helpers.py")]),
    P("C18", "meshio convert, ascii, binary, compress, decompress, info keep the mesh",
      "meshio convert between any two formats that both know the cell type yields the mesh with the input's points, cells and the data both formats can hold, without crashing on data the output cannot hold; "
      "--ascii, --float-format, --sets-to-int-data and --int-data-to-sets do what they say and keep everything else. meshio ascii, binary, "
      "compress and decompress rewrite a file in the same format and in the encoding asked for, reading back to the same mesh, refuse formats they do not know and leave those files alone. meshio info "
      "warns exactly if cells refer to missing points or points are unused.",
      IC, "all coordinates, connectivity and data values; all pairs of formats; every file variant of each in-place command",
      WHY + "The tests run each command on one file, look at no result, and never convert between formats with data.",
      ["_cli/_main.py", "_cli/_convert.py", "_cli/_ascii.py", "_cli/_binary.py", "_cli/_compress.py", "_cli/_decompress.py", "_cli/_info.py"],
      [("options of convert", "_cli/_convert.py"), ("in-place rewriting", "_cli/_compress.py"), ("format of the file", "_cli/_helpers.py")]),
    P("C19", "SVG drawings show every cell of a flat mesh at its place",
      "Writing a flat mesh (2D points, or 3D with zero third component) to SVG gives one path per line, triangle and quad, in the order of the cells, through the cell's corners in order, closed unless it is a line; other "
      "cells are left out. x points to the right and y upwards, all coordinates and the view box (the bounding box of the points) are scaled by the same factor so that the image has the width asked for (no scaling "
      "for None or a vertical line), numbers are in the format asked for, stroke and fill as asked for. Meshes that are not flat are refused.",
      IC, "all coordinates within a bounding box, all connectivity; cell types and sequences of blocks, image widths, number formats, dtypes",
      WHY + "The tests only check that some file is written.",
      ["svg/_svg.py"],
      [("scaling and flipping", "svg/_svg.py"), ("paths per cell type", "svg/_svg.py")]),
    P("C20", "Reads and writes do not depend on what was read or written before",
      "What meshio reads from a file, and what a written file holds, is the same in a new process as after any sequence of other reads and writes: of the same or other meshes in the same format, with other options, "
      "in other formats, over files that exist, and after writes that were refused and reads that failed. A mesh that was read shares nothing with later reads of the same file, a written file does not change with the mesh it was written "
      "from, new meshes start without data, and several time series can be written side by side.",
      ["inputs", "histories", "configurations"], "all coordinates, connectivity and data values; histories of reads and writes in all formats and options",
      "The tests read and write each mesh once, into a new file; they compare a result with the mesh, never with the result of the same call later on.",
      ["_helpers.py", "_mesh.py", "_common.py", "_vtk_common.py", "xdmf/time_series.py", "gmsh/common.py", "vtk/_main.py", "vtu/_vtu.py"],
      [("tables of formats and extensions", "_helpers.py"), ("tables of cell types and node orders", "_vtk_common.py"), ("defaults of a mesh", "_mesh.py"), ("data sets and counters of a series", "xdmf/time_series.py")]),
    P("C21", "The options of a writer decide the encoding of the file, and nothing else",
      "The options of meshio.write, Mesh.write and the write functions of the formats take effect for every mesh: binary=False gives a text file and binary=True a binary one throughout (VTK, VTU, Gmsh, PLY, STL, ANSYS, FLAC3D); "
      "compression, compression_opts, header_type and data_format select the encoding of all arrays (VTU, XDMF, CGNS, H5M, HMF), fmt_version and the names vtk42, vtk51, gmsh22 the version of the file, float_fmt the digits of the coordinates "
      "(Abaqus, FLAC3D, Gmsh, MDPA, Medit, Netgen, TetGen), point_format and cell_format the cards of Nastran files, add_global_ids the node numbers of H5M files, translate_cell_names the element names of Abaqus files. Without options the "
      "defaults of the functions apply. All encodings of one format read back to the same mesh, up to the digits of text. Unknown versions, encodings and options are refused.",
      IC, "all coordinates, connectivity and data values; every value of every option, by every way of writing",
      WHY + "The tests write with several options but never look at the file: a writer that ignores an option passes them.",
      ["vtk/_main.py", "vtk/_vtk_51.py", "vtk/_vtk_42.py", "vtu/_vtu.py", "gmsh/main.py", "xdmf/main.py", "ply/_ply.py", "stl/_stl.py", "ansys/_ansys.py", "flac3d/_flac3d.py", "nastran/_nastran.py", "h5m/_h5m.py", "hmf/_hmf.py", "cgns/_cgns.py", "_helpers.py", "_mesh.py"],
      [("versions of VTK", "vtk/_main.py"), ("versions of Gmsh", "gmsh/main.py"), ("compression and headers", "vtu/_vtu.py"), ("data formats", "xdmf/main.py"), ("cards", "nastran/_nastran.py")]),
]

NOT_APPLICABLE = {}
