"""Single source of properties.jsonl and MANIFEST.json (run meta/build.py after editing)."""
PROPS = []


def P(id, title, statement, over, qtext, tests, files, mech, technique, note, state=(), observe=()):
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": qtext}, "why_tests_cant": tests,
                  "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                              "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                              "observe_at": list(observe), "hook_needed": None},
                  "_technique": technique, "_note": note})


P("P01", "Parameter data is written in exactly the layout the reader parses",
  "For every entity type, the parameters written to the Parameter Data section are, in number, order, kind and meaning, exactly those the reader of the same entity type parses, and the record is closed by the record delimiter after its last parameter. Every element of every list is written, and the counts written in front of lists are the counts the reader uses to read them.",
  ["inputs", "programs"], "all entity types and all contents of their members: empty and non-empty lists, present and absent optional parts and pointers",
  "the tests write and re-read a handful of surfaces, curves and solids in mm; most entity types (104, 108, 122, 154, 164, 180, 186, 406, 5xx) and most optional parts never pass through them, and a consistently shifted layout re-reads without any test noticing",
  ["src/entities/entity*.cpp", "src/iges/iges_io.cpp"],
  [("format() of each entity class", "src/entities/entityNNN.cpp"), ("readPD() of each entity class", "src/entities/entityNNN.cpp"),
   ("ParseInt/ParseReal/ParseHString, AddPDItem/AddPDHStr", "src/iges/iges_io.cpp")],
  "dataflow over clang CFGs: writer and reader item automata compared by simulation",
  "Decides agreement of the two layouts (order, kind, member, count, termination) for every entity class; it does not decide the numerical text of a value. Trusts clang's AST and CFG and the engine's models of string streams and the parse/format helpers.",
  observe=["output file of the writer", "entities returned by the reader"])

P("P02", "Directory Entry: what writeDE() packs is what readDE() and associate() unpack",
  "Both Directory Entry lines carry, in each of their 20 fields, the attribute the reader takes from that field, so type, form, line font, level, view, transform, label, color, line weight, the four status flags, label and subscript of every entity survive writing and reading. Entity pointers are written with the sign under which the reader accepts and resolves them, every value the writer may emit is accepted by the reader, and a status flag or form that format() insists on is kept by the same entity's readDE().",
  ["inputs"], "all values of the attributes: numeric or pointer level/font/color, all combinations of the status flags, all entity classes",
  "the tests only write default attributes; levels, structure, pointers to color or font definitions, hidden or logical entities never pass through the directory in a test",
  ["src/entities/iges_entity.cpp", "src/entities/entity*.cpp"],
  [("IGES_ENTITY::writeDE", "src/entities/iges_entity.cpp"), ("IGES_ENTITY::readDE and overrides", "src/entities/iges_entity.cpp"), ("IGES_ENTITY::associate", "src/entities/iges_entity.cpp")],
  "path-sensitive dataflow over clang CFGs: field-by-field comparison of writer and reader terms",
  "Decides field contents, signs, status packing (both packing expressions are evaluated over all flag values) and acceptance ranges; trusts the column arithmetic of FormatDEInt/DEItemToInt.",
  observe=["Directory Entry lines of the output file"])

P("P03", "Global section: all items survive writing and reading, in place and in range",
  "Every one of the 26 items of the Global section is written at the position at which it is read, converted back to the same value, and terminated so that the reader recognises the end of the section with any legal choice of parameter and record delimiters. Defaulted items get the documented default, and items which the standard or the rest of the library cannot accept (drafting standard, unit flag, model scale, line weight gradations, dates) are rejected rather than used.",
  ["inputs"], "all values of the 26 items, including empty strings, custom delimiters, custom unit names and sections that end early",
  "the tests write one fixed global section with default delimiters and millimetres; items 3 to 26 never take another value",
  ["src/iges/iges.cpp", "src/iges/iges_io.cpp"],
  [("IGES::writeGlobals / readGlobals", "src/iges/iges.cpp"), ("ParseInt/ParseReal/ParseHString", "src/iges/iges_io.cpp")],
  "path-sensitive dataflow over clang CFGs: item sequences of writer and reader compared; range conditions on the reader's accepting paths",
  "Decides order, member, kind, end-of-section handling, delimiter plumbing and accepted ranges; the numerical text of a value is not decided.",
  observe=["Global section of the output file", "globalData after Read"])

P("P04", "Units and scale: every length is converted, once, by the right factor",
  "Reading a file in any unit or model scale, converting the model's units and changing its scale multiply every coordinate, length, tolerance and maximum by the ratio of the two units or scales, the constant term of a conic by its square, and leave directions, rotations, ratios, knots and weights alone. All poles of all curves and surfaces are covered, exactly once, including when the Global section leaves trailing items defaulted; merging converts line weights by the ratio of the gradations.",
  ["inputs", "programs"], "all pairs of units, all scales, all entity classes with geometry",
  "all tests stay in millimetres with scale 1, where every wrong or missing factor is 1",
  ["src/iges/iges.cpp", "src/entities/entity*.cpp"],
  [("IGES::ConvertUnits, ChangeModelScale, readGlobals", "src/iges/iges.cpp"), ("rescale() of each entity class", "src/entities/entityNNN.cpp")],
  "dataflow over clang CFGs: symbolic scale factors per member (polynomial normal form) and evaluation over the finite unit table",
  "The power of the scale factor of each member follows IGES 5.3. Parameter space curves (BPTR) are outside: the library scales type 100/110/102 curves used as BPTR too, which is noted in DESIGN.md.",
  observe=["members of the entities after Read / ConvertUnits / ChangeModelScale"])

P("P05", "The API wrappers are faithful and safe handles on the objects they wrap",
  "A DLL_* object never reaches through its pointer unless its valid flag says the wrapped object still exists, and its flag is registered with exactly the object it points to, so that it learns of that object's deletion. Each wrapper call hands its own parameters, in order, to the core method of the same purpose and reports that method's verdict, creates at most one entity, and deletes an entity only through the model which owns it.",
  ["inputs", "histories"], "all methods of all DLL_* classes, in every state of the handle: empty, attached, detached, wrapped object already deleted",
  "tests use live handles only and check a handful of methods; a wrapper which forgets its guard or drops a verdict works in every test",
  ["src/dllapi/*.cpp", "src/include/api/*.h"],
  [("m_valid / m_hasParent guards", "src/dllapi/*.cpp"), ("AttachValidFlag / DetachValidFlag", "src/entities/iges_entity.cpp, src/geom/*.cpp, src/iges/iges.cpp")],
  "typestate and value-flow analysis over clang CFGs of every wrapper method",
  "Decides guards on every path, flag registration as a typestate, argument order, verdict propagation. Trusts AttachValidFlag/DetachValidFlag to set and clear the flag.",
  observe=["return values and out parameters of DLL_* methods"])

P("P06", "Entity references stay symmetric: who is pointed to knows who points",
  "Whenever an entity holds a pointer to another entity (a directory-entry pointer, a child in its parameter data or in one of its lists, an optional entity), it is registered in that entity's list of parents, and whenever it is registered there it holds such a pointer, on success and on failure of every method. Overwriting, removing or clearing a child pointer and destroying the entity release every child, and unlink(child) makes the entity forget the child wherever it held it. addReference and delReference report exactly the change they make to the list of parents.",
  ["histories", "inputs"], "all sequences of set, add, remove, associate, unlink and destroy on all entity classes, including rejected arguments and corrupt files with duplicate, missing or wrong-typed children",
  "a dangling parent or child pointer only shows when the other side is destroyed first or later; the tests destroy whole models after success and never take the failure paths",
  ["src/entities/iges_entity.cpp", "src/entities/entity*.cpp"],
  [("addReference / delReference / unlink / associate", "src/entities/iges_entity.cpp and overrides"), ("destructors and Set*/Add*/Del* methods of entities", "src/entities/entityNNN.cpp")],
  "typestate analysis (registered / held / released per child) over clang CFGs with inlined private helpers",
  "Scalar child members are decided per path; for list members the release before erase/clear/destruction is decided per function (some release of that list's elements must exist), and roll-back loops are counted undecided. Assumes a callback on another entity does not change this entity's own members.",
  observe=["refs/unlink traffic between entities", "dangling pointers after deletion of a child or parent"])

P("P07", "Indices, iterators and pointers stay valid for every file and argument",
  "Every index computed from a file, an argument or an entity lies inside the array, vector or string it is used on; iterators are neither end nor erased when they are followed; first and last elements are only taken from containers that have one; numbers read from a file cannot overflow the position they are added to. No pointer is followed where it is or may be NULL: pointers passed by users, child members and results of searches are tested first.",
  ["inputs", "histories"], "all files, valid or corrupt, all arguments of core and API methods, all states of the entities",
  "the tests read a few valid files; corrupt pointers, lengths and counts, NULL arguments and empty containers never occur, and an access just past the end rarely fails visibly",
  ["src/entities/*.cpp", "src/iges/*.cpp", "src/geom/*.cpp", "src/dllapi/*.cpp", "src/idf/*.cpp"],
  [("bounds tests in associate(), readPD(), readDE()", "src/entities/*.cpp"), ("ParseInt/ParseReal/ParseHString, DEItemToInt", "src/iges/iges_io.cpp"), ("IGES::readGlobals, ConvertUnits", "src/iges/iges.cpp")],
  "interval and typestate analysis over clang CFGs with inter-procedural bounds proved by greatest fixpoint",
  "Decides accesses whose index and extent are related in the code of the function and its internal callers. Accesses whose bound depends on class invariants between a count and a heap array, or on values that were joined over loops, are counted undecided, not violations.",
  observe=["element accesses and pointer dereferences of the whole library"])

P("P08", "A step that fails makes the whole read, write or conversion fail",
  "When a value, record, directory entry, parameter or section cannot be read, formatted, written, rescaled or linked, the operation it belongs to reports failure up to IGES::Read, Write, ConvertUnits, ChangeModelScale and Export; text that is no number or is out of range for its type is rejected, and an exception is turned into a failure. A write succeeds only if the stream was still good after the file was closed, and a failed read leaves no partial model behind. Documented leniency (a default assigned for an unreadable item, a reference to an unsupported entity) is no failure.",
  ["inputs", "faults"], "all corrupt or truncated files, all values which cannot be formatted, all I/O errors, all chains of calls between the failing step and the caller",
  "the tests read valid files and write to a working disk; the failing branches, of which there are hundreds, are never taken",
  ["src/iges/*.cpp", "src/entities/*.cpp", "src/idf/*.cpp", "src/geom/*.cpp", "src/dllapi/*.cpp"],
  [("IGES::Read, Write, Export, ConvertUnits", "src/iges/iges.cpp"), ("ParseInt, ParseReal, ParseHString, AddPDItem", "src/iges/iges_io.cpp"), ("readPD, format, associate of the entities", "src/entities/*.cpp"), ("ReadFile/WriteFile and their exception handlers", "src/idf/idf_parser.cpp")],
  "path-sensitive failure typestate over clang CFGs: each call of a fallible step is split into success and failure, the failure must reach the caller",
  "Decides every call of the named steps (roles, not call sites) and every path on from it. Whether the error message is right, and whether a refused reference is undone, is not part of it (P06).",
  observe=["calls of ParseX/FormatX/readX/writeX/associate/rescale/addReference", "stream state after writing", "exception handlers"])

P("P09", "Every object is initialised, owned and released exactly once",
  "A constructor gives every scalar and pointer member a value, and no variable is read before it has one. What a function creates is stored, handed on or released on every path it takes, and released exactly once: as an array if and only if it was created as one, before an owning member is overwritten, when it is taken out of an owning container, and by the destructor of its owner. Nothing is used after its release, no member or container still points to it, and an owner of objects is not copied member by member.",
  ["inputs", "histories"], "all paths of all functions, in particular rejected files and arguments, repeated calls and destruction in every state",
  "a leak, a second release or a read of an unset member shows in no result of a test; the paths that release things early are the failing ones, which the tests do not take",
  ["src/entities/*.cpp", "src/iges/*.cpp", "src/geom/*.cpp", "src/dllapi/*.cpp", "src/idf/*.cpp"],
  [("constructors and destructors", "src/**"), ("readPD, SetNURBSData of the B-spline entities", "src/entities/entity126.cpp, entity128.cpp"), ("LOOP_DATA in IGES_ENTITY_508", "src/entities/entity508.cpp"), ("Clear and Del* of the board", "src/idf/idf_parser.cpp"), ("outline algebra", "src/geom/mcad_outline.cpp")],
  "ownership typestate over clang CFGs with inter-procedural summaries (which function keeps what its parameter points to, and with which result)",
  "Decides explicit paths; an exception thrown inside a callee is not counted as a path. Arrays handed out through reference parameters, and entities (which belong to the model they are added to, P06), are not followed. Containers are followed element-wise when an element is taken out, and as a whole in destructors.",
  observe=["new/delete sites", "constructors", "containers of owned pointers"])

P("P10", "Every entity is of the class its type number says and is used as that only",
  "The type number of an entity never changes and names its class: the factories of the reader, NewEntity and NewAPIEntity create for each number the one class (or API wrapper) which carries it, an API wrapper only ever holds entities or outlines of the kind it stands for, and an entity or outline is treated as a derived class only where it is known to be of that class. References accept exactly the entity types which IGES admits for them, and what a setter accepts is accepted when the file is read back. Objects deleted through a base class have virtual destructors and methods meant to override do so.",
  ["inputs", "histories"], "all type numbers, all (entity, reference) pairs, all attach/detach sequences of API wrappers, all downcasts of the library",
  "the tests build models whose references are of the expected type; a wrong-typed child, a rarely used type number or a wrapper attached to a foreign entity never occurs, and a wrong cast often goes unnoticed",
  ["src/iges/iges.cpp", "src/entities/*.cpp", "src/dllapi/*.cpp", "src/geom/*.cpp"],
  [("IGES::NewEntity and its factories", "src/iges/iges.cpp"), ("DLL_IGES::NewAPIEntity, Attach", "src/dllapi/dll_iges.cpp, dll_iges_entity.cpp, dll_mcad_outline.cpp"), ("associate() and Set*/Add* with entity arguments", "src/entities/*.cpp"), ("downcasts", "src/**")],
  "abstract interpretation of the dynamic type over clang CFGs (the type tag of an object is followed through comparisons, switches, helper predicates and casts) against tables of IGES-admitted child types",
  "Casts of the elements of containers rely on all insertions into the container being checked; the result of a factory relies on the class's constructor. Form numbers that restrict a type are not followed.",
  observe=["type tags, casts, factories and virtual methods of all entity, outline and wrapper classes"])

P("P11", "Attributes read back as they were set; a refused value changes nothing",
  "What a setter accepts is what the getter of that attribute delivers afterwards, item for item, and the getter then reports that there is a value; every getter which reports success has given a value to each item it delivers, and B-spline data are taken over completely, each value at its place. A setter changes no other attribute, every reference attribute accepts some entity, and a value which a setter refuses is not stored and leaves the other attributes as they were. The status and form attributes (visibility, dependency, use, hierarchy, form, font, color, level, view, transform, label, line weight) which an entity class stores are those its reader keeps, value by value.",
  ["inputs", "histories"], "all setters and getters of all core, API and geometry classes with all their arguments; all values of the status attributes of all entity classes",
  "the tests set a few attributes of a few entity types and never read most of them back; swapped or lost items, values changed by a refused call and values the reader replaces do not show",
  ["src/entities/*.cpp", "src/iges/*.cpp", "src/dllapi/*.cpp", "src/geom/*.cpp"],
  [("Set*/Get* of the directory entry attributes", "src/entities/iges_entity.cpp and overrides"), ("Set*/Get* of the entity parameters", "src/entities/entityNNN.cpp"), ("Set*/Get* of the API wrappers", "src/dllapi/*.cpp"), ("readDE", "src/entities/entityNNN.cpp")],
  "symbolic composition of setter and getter over clang CFGs (abstract values followed through both bodies), and value-by-value abstract runs of the status setters against readDE",
  "Setters which only prepare other data (knots, coefficients, lists) are decided for refusal and frame, not item by item. Attributes IGES declares void for an entity type are listed in a table. A refused reference may drop the former one.",
  observe=["Set*, Get* and Is* methods", "status members after readDE"])

P("P12", "Point, matrix, transform and curve algebra is exact for all coordinates",
  "Operators and constructors of points, matrices and transforms compute what linear algebra defines (also when both operands are one object), normals are normalised cross products, and points match exactly if their distance is within the tolerance. A curve entity's start and end point are its stored coordinates, transformed exactly once by the whole chain of attached transforms if and only if that is asked for, and a query changes no data; a conic has the form its determinants define, an arc, conic or composite curve is closed exactly if its ends meet, and B-splines answer with the flags they hold. Segments store, reverse and measure lines, arcs and circles as defined, and components are placed by the rigid motion their side, angle and offset define.",
  ["inputs"], "all real values of all coordinates, coefficients, angles and matrix elements (up to rounding), all combinations of flags and attached transforms",
  "tests multiply a few matrices, mostly near the identity, and compare few coordinates; a swapped index, a lost term, a wrong sign or a transform applied twice shows only for general values",
  ["src/geom/mcad_elements.cpp", "src/geom/mcad_helpers.cpp", "src/geom/mcad_segment.cpp", "src/entities/entity100.cpp", "src/entities/entity102.cpp", "src/entities/entity104.cpp", "src/entities/entity110.cpp", "src/entities/entity124.cpp", "src/entities/entity126.cpp", "src/idf/idf2igs.cpp"],
  [("operators of MCAD_POINT, MCAD_MATRIX, MCAD_TRANSFORM", "src/geom/mcad_elements.cpp"), ("PointMatches, CheckNormal, CalcNormal", "src/geom/mcad_helpers.cpp"), ("GetStartPoint, GetEndPoint, IsClosed, getForm", "src/entities/entity1*.cpp"), ("GetTransformMatrix", "src/entities/entity124.cpp"), ("MCAD_SEGMENT", "src/geom/mcad_segment.cpp"), ("calcTransform", "src/idf/idf2igs.cpp")],
  "abstract interpretation over clang CFGs in an exact polynomial domain (normal forms over the initial contents of locations and uninterpreted functions), compared with specification polynomials",
  "Decided in real arithmetic; rounding is not modelled. Bounding boxes of arcs, intersections and the boolean algebra of outlines are not part of it.",
  observe=["values stored and returned, path by path"])

P("P13", "Every line written is an 80-column record with all of its section's text",
  "Each record of the start, global and parameter sections holds 72 columns of data (64 and the sequence number of its directory entry in the parameter section), the section letter and its own number, numbered from 1 without gap. Items, Hollerith strings of any length, comments and start lines are distributed over records so that no character is lost, repeated, reordered or written past the data columns, whatever the length of an item, the free space of the record and the values of the numbers; the terminate record states how many records each section has. The reader takes section, number and data from the same columns.",
  ["inputs"], "all item texts and lengths, all fill states of the current record, all record numbers up to the seven digits of the field, all comment and start lines",
  "records break at a particular length only: tests write a few models whose items are short, whose strings fit a record and whose section counts have one to three digits",
  ["src/iges/iges_io.cpp", "src/iges/iges.cpp", "src/entities/iges_entity.cpp"],
  [("AddPDItem, AddPDHStr, AddSecItem, AddSecHStr", "src/iges/iges_io.cpp"), ("FormatDEInt, ReadIGESRecord", "src/iges/iges_io.cpp"), ("formatComments", "src/entities/iges_entity.cpp"), ("AddToHeader, writeStart, writeGlobals, Write", "src/iges/iges.cpp")],
  "abstract interpretation of string building over clang CFGs (strings as segments with linear symbolic lengths, loops by generalised invariants, columns decided by linear inequalities)",
  "The caller's contract of the Add* helpers (a carry shorter than a record) is required of every caller inside the analysis. Dates and real numbers are taken as opaque items of their formatter.",
  observe=["strings appended to the record list, their lengths and pieces"])

P("P14", "Every entity of a model is in that model's list once and in no other's",
  "An entity which a model creates, reads or takes over is in that model's list exactly once, has that model as its parent and is in no other model's list; unlinking takes exactly one entity out of the list and leaves it alive and without parent, deleting takes it out and releases it. Attaching an entity to another one takes it over into the model of the entity it is attached to. Culling releases orphaned entities (on request also unreferenced ones) and keeps every other one once; merging a model into another hands over all entities or, on failure, none.",
  ["histories"], "all histories of creating, attaching, adding, unlinking, deleting, culling and merging over any number of models",
  "needs two models, or the same entity handed over twice, or a failing merge: the tests build one model, add each entity once and write it; a second owner shows when the second model is destroyed",
  ["src/iges/iges.cpp", "src/entities"],
  [("IGES::AddEntity, UnlinkEntity, DelEntity, NewEntity, Cull, Export", "src/iges/iges.cpp"), ("IGES_ENTITY::SetColor, SetTransform, SetView, ...", "src/entities/iges_entity.cpp"), ("AddDE, AddEdge, AddSegment, SetSurface, ...", "src/entities/entity308.cpp")],
  "path-sensitive typestate analysis over clang CFGs (membership ghost per entity and model; callee effects by contract of AddEntity/UnlinkEntity)",
  "Entities attached further down (the children of an attached entity) do not follow, as the API documents; SetParentIGES is the user's own affair.",
  observe=["changes of IGES::entities, of IGES_ENTITY::parent and of the references of attached entities"])


P("P15", "Output and queries show the model as it is now, whatever was done before",
  "What reading, writing and exporting a model and querying an entity produce is determined by the data held at that time: not by the locale of the process, by what an earlier write left in the entities, or by copies made before the last change. A list handed out by a getter, and the bounding box an outline works with, match the items they are derived from after every sequence of additions and removals. Operations of IGES which convert numbers run in the classic locale and give the user's locale back.",
  ["histories"], "all sequences of changes, queries and writes; all C and C++ locales",
  "the tests write each model once, in the C locale, and query it once; a stale copy needs an addition after a query, a removal and an addition, a second write after a change, or a program with a decimal comma",
  ["src/iges/iges.cpp", "src/entities", "src/geom/mcad_outline.cpp"],
  [("IGES_LOCALE and the public operations of IGES", "src/iges/iges.cpp"), ("Get*List of entities 308, 408, 504, ..., GetHeader", "src/entities"), ("calcBoundingBox, IsInside, opOutline", "src/geom/mcad_outline.cpp"), ("format, rescale, writeDE, writePD, Write", "src/entities, src/iges/iges.cpp")],
  "effect and dataflow analysis over clang CFGs and the call graph (locale guard on every path to a conversion; validity of derived copies; upward-exposed reads of what the writer changes)",
  "The form of a conic (104) is chosen at the first write and kept: a known finding. The entity order (IGES::entities) and DE numbers assigned by a write are part of the data.",
  observe=["calls that convert numbers, changes of containers and of their copies, members read and written while writing"])