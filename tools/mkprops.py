import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state,observe,hook=""):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=x,meaning=x,where=files[0]) for x in state],observe_at=observe,hook_needed=hook)))
E="src/entities/"
p("E01","Entity links and parent references stay symmetric, never dangling",
 "After any sequence of API calls that create, link, relink, unlink, cull or destroy entities, an entity counts another as its parent exactly when that other entity currently holds a link to it (child slot, child list, transform, colour definition or optional property). Destroying an entity clears every link other live entities hold to it and withdraws its own parent references, so no query, write or later destruction ever reaches a destroyed entity.",
 ["histories"],"every finite history of create/link/relink/delete calls over every entity type the model can hold",
 "Tests only build models forward and tear the whole model down; they never delete or relink an entity in the middle of a history and never look at the reference lists.",
 ["src/entities/iges_entity.cpp","src/entities/entity102.cpp","src/entities/entity144.cpp","src/entities/entity180.cpp","src/entities/entity308.cpp","src/iges/iges.cpp"],
 [("addReference/delReference pairing",E+"iges_entity.cpp"),("destructor unlink of parents and delReference of children",E+"iges_entity.cpp ~IGES_ENTITY and every subclass destructor"),("per-type unlink()",E+"entityNNN.cpp")],
 ["refs list","extras list","typed child pointers","pTransform/pColor"],["GetNRefs/getters of each type","DE pointers of the written file","destruction under AddressSanitizer"])
p("E02","Every entity has one owner; add, unlink, delete and clear conserve entities",
 "Each live entity is owned by at most one model: linking or adding an entity from another model transfers it, and after any history the entities a model writes are exactly those it owns. Deleting one entity destroys that entity only, clearing or destroying a model destroys all it owns and nothing else, and unlinking an entity from a model leaves the entity alive with its data intact.",
 ["histories"],"every finite history of NewEntity/AddEntity/UnlinkEntity/DelEntity/Clear/link calls over several models",
 "Existing tests own every entity by a single model from creation to program exit.",
 ["src/iges/iges.cpp","src/entities/iges_entity.cpp"],
 [("IGES::AddEntity/DelEntity/UnlinkEntity/Clear","src/iges/iges.cpp"),("auto-adoption in setters",E+"entityNNN.cpp Set*/Add*")],
 ["IGES::entities","IGES_ENTITY::parent"],["GetParentIGES","entities present in the written file","destruction notifications"])
p("E03","Culling removes exactly the orphaned entities, transitively",
 "Cull, and every Read and Write which perform it, removes precisely the entities that are orphans: entities that are not independent (or can only exist subordinate) and have no parent, and entities missing a mandatory child. The removal is closed under its own consequences, running it again removes nothing, and no entity reachable from a kept independent root is lost.",
 ["histories","inputs"],"every entity graph reachable through the API, every status assignment, and every file content",
 "Tests compare entity counts of intact, fully linked models; no test builds an orphan, a chain of orphans, or a half-built entity.",
 ["src/iges/iges.cpp","src/entities/"],
 [("IGES::Cull fixpoint","src/iges/iges.cpp"),("isOrphaned per type",E+"entityNNN.cpp")],
 ["entities","refs","depends status"],["entities present after Cull / in the written file"])
p("E04","API-layer handles are valid exactly as long as the object behind them",
 "A handle object of the C++ API layer (for models, entities, segments, outlines and PCB objects) reports itself valid exactly while it is bound to a live object, whichever way that object is destroyed or rebound. Every operation through an invalid handle fails without crashing and without any effect, and a handle's destruction never destroys or disturbs an object owned by a model.",
 ["histories"],"every history of handle creation, attach, detach, duplicate handles, object deletion through any route, and handle destruction",
 "Tests hold one handle per object and never delete underneath a handle.",
 ["src/dllapi/","src/iges/iges.cpp","src/entities/iges_entity.cpp","src/geom/mcad_segment.cpp","src/geom/mcad_outline.cpp"],
 [("AttachValidFlag/DetachValidFlag","src/iges/iges.cpp, src/entities/iges_entity.cpp, src/geom/*.cpp"),("m_valid checks","src/dllapi/*.cpp")],
 ["m_validFlags","m_valid","m_hasParent"],["IsValid()","return values of wrapper calls"])
p("E05","Rejected operations are refused for the right inputs and change nothing",
 "A call that links a child of a type the slot does not accept, that would make an entity its own parent (directly, through a circular link, a circular chain of transforms or nested subfigures), or that sets an attribute outside its permitted range returns failure; calls with acceptable arguments succeed. A child is never linked twice by the same parent. A refused call leaves the observable state of every entity and model unchanged, apart from releasing the slot's former child where the setter replaces a link.",
 ["histories","inputs"],"every argument (entity type, form, status, range value) in every reachable state",
 "Tests only make calls that succeed.",
 ["src/entities/","src/iges/iges.cpp"],
 [("type checks in setters",E+"entity120/122/144/164/180/308/408"),("duplicate/circular checks",E+"iges_entity.cpp addReference"),("range checks",E+"iges_entity.cpp Set*")],
 ["child links","form, status, level, colour, subscript attributes"],["return values","getters and written DE fields after the call"])
p("E06","Composite curves are ordered chains that know when they are closed",
 "A composite curve keeps its members in the order they were added, reports closed exactly when its last end point meets its first start point, and accepts no further member once closed and no composite curve as a member. Start and end points, segment counts and member queries always describe the current chain; removing an end member shortens the chain and removing an interior one empties it.",
 ["histories","inputs"],"every sequence of adding/removing lines and arcs, with and without transforms",
 "The tests build only valid closed chains through the PCB helper; removal and rejection paths are not exercised.",
 ["src/entities/entity102.cpp","src/entities/entity100.cpp","src/entities/entity110.cpp"],
 [("AddSegment/unlink/IsClosed",E+"entity102.cpp"),("end point evaluation",E+"entity100.cpp, entity110.cpp")],
 ["curves list"],["IsClosed/GetNCurves/GetCurve/GetStartPoint/GetEndPoint/AddSegment"])
p("F01","Every written file is a structurally valid IGES file",
 "Whatever valid model is written, the file consists only of 80-column records in the order Start, Global, Directory, Parameter, Terminate, each section numbered consecutively from 1, and the Terminate counts equal the real section sizes. Every Directory entry's parameter pointer and line count cover exactly its own Parameter records (which carry its own sequence number), and every entity pointer in Directory or Parameter data is the sequence number of the entity that was linked.",
 ["inputs","histories"],"every model constructible through the API, every text length, delimiter choice, and every number of entities",
 "Tests only re-read with the same library, which tolerates many structural errors; no test inspects record structure.",
 ["src/iges/iges.cpp","src/iges/iges_io.cpp","src/entities/"],
 [("IGES::Write","src/iges/iges.cpp"),("writeDE/writePD/AddPDItem/AddSecItem","src/iges/iges_io.cpp, "+E+"iges_entity.cpp"),("format() per type",E+"entityNNN.cpp")],
 ["sequenceNumber","parameterData","paramLineCount","pdout"],["bytes of the written file"])
p("F02","Writing then reading a model reproduces it; writing again is stable",
 "A model that was written successfully is read back successfully into a model with the same entities in the same order: same type, form, status, colour, level, line, label and subscript attributes, parameter values to the written precision, and the same links. Writing the re-read model produces a file that is identical apart from date stamps and defaults made explicit. What is read does not depend on how the same data are laid out in the free-format records (delimiters, blanks, line breaks, defaulted fields, spelling of numbers). Directory attributes that do not apply to an entity's type are not kept.",
 ["inputs","histories"],"every model constructible through the API with every attribute combination",
 "The round-trip test compares entity counts and some real parameters to six digits; Directory attributes, links, text and optional properties are not compared.",
 ["src/iges/iges.cpp","src/iges/iges_io.cpp","src/entities/"],
 [("readDE/writeDE",E+"iges_entity.cpp"),("readPD/format per type",E+"entityNNN.cpp"),("associate per type",E+"entityNNN.cpp")],
 ["entities and all their DE/PD fields"],["API getters after Read; bytes of both files"])
p("F03","Damaged files are rejected without crashing and leave the reader reusable",
 "Reading a file whose record structure is damaged (missing, reordered, mis-numbered or truncated sections, a missing or malformed Terminate record, parameter pointers, counts or back pointers that do not match, or entity pointers that are even, out of range, or to an entity of an unacceptable type) returns failure and never crashes, hangs or corrupts memory. Reading never succeeds with links other than those the file states, and after a failed read the model can be cleared and used to read a good file correctly.",
 ["inputs","fault_sequences"],"every single structural fault, and pairs of faults, applied at every record of valid files",
 "No existing test feeds a damaged file.",
 ["src/iges/iges.cpp","src/iges/iges_io.cpp","src/entities/"],
 [("section state machine in IGES::Read","src/iges/iges.cpp"),("ReadIGESRecord","src/iges/iges_io.cpp"),("associate() bounds and type checks",E+"entityNNN.cpp")],
 ["entities during a read"],["return value of Read; process health; second Read"])
p("F04","Global section and Start text survive write and read for any content",
 "Every Global section field set on a model (delimiters, identification strings, unit, sizes, resolution, dates, author, organisation, version, drafting standard, notes) is written in its own position and read back with the same value, for strings of any length and content including delimiter characters and for any legal pair of delimiters. Absent optional fields take the documented defaults, and Start section lines come back in order.",
 ["inputs"],"every combination of field values, string lengths around record boundaries, and legal delimiter pairs",
 "Tests always use the same defaults and never compare Global fields.",
 ["src/iges/iges.cpp","src/iges/iges_io.cpp"],
 [("writeGlobals/readGlobals","src/iges/iges.cpp"),("ParseHString/ParseInt/ParseReal/AddSecItem/AddSecHStr","src/iges/iges_io.cpp")],
 ["IGES_GLOBAL","startSection"],["globalData after Read; G and S records of the written file"])
p("F05","Write protects existing files and never alters the model's meaning",
 "Write without the overwrite flag never modifies or truncates an existing file and returns failure; with the flag, or for a new path, success means the complete file is on disk. Write fails without creating a file when the model holds nothing writable, and apart from culling orphans and fixing attributes which the entity type prescribes it leaves the in-memory model unchanged, so that the same call repeated gives the same file.",
 ["histories","fault_sequences"],"every sequence of Write calls over existing/missing/unwritable paths and complete, empty or incomplete models",
 "Tests write once to a fresh or overwritable path.",
 ["src/iges/iges.cpp"],[("IGES::Write","src/iges/iges.cpp")],["filesystem","entities"],["directory contents and file bytes before/after"])
p("U01","Unit and scale changes rescale every length exactly once and nothing else",
 "Changing the unit or the model scale, and reading a file that is in another unit or scale, multiplies every length of every entity (points, translations, sizes, resolution) exactly once by the exact ratio of the two settings, and leaves angles, directions, rotation matrices, weights, knots, surface parameters and curves in parameter space, and the line weights untouched. The physical size of the model is preserved, and changing back restores the original values to the written precision.",
 ["histories","inputs"],"every sequence of unit/scale changes over every entity type and every legal unit pair",
 "No test changes units or reads a non-millimetre file.",
 ["src/iges/iges.cpp","src/entities/"],
 [("ConvertUnits/ChangeModelScale","src/iges/iges.cpp"),("rescale per type",E+"entityNNN.cpp"),("readGlobals conversion factor","src/iges/iges.cpp")],
 ["globalData.unitsFlag, modelScale, cf, minResolution","entity parameters"],["getters and written PD values"])
p("E07","API-layer calls do exactly what the object's own calls do",
 "A call through a valid handle of the C++ API layer (models, entities of every type, segments, outlines, PCB objects) has exactly the effect and the result of the corresponding call on the object behind the handle: every value set through a handle is the value then read through it and from the object, every list handed out is the current list, the arguments are not swapped or lost, and nothing else changes.",
 ["histories","inputs"],"every history of calls through handles of every class mixed with direct calls on the same objects",
 "Tests call a few functions of a few handle classes once each.",
 ["src/dllapi/"],
 [("wrapper classes","src/dllapi/dll_*.cpp"),("cached lists","src/entities/entity144.cpp, entity308.cpp, iges_entity.cpp")],
 ["entity, model, segment and outline state"],["results of every call through a handle, and of the same call on the object"])
p("X01","Exporting a model into an assembly moves everything and loses nothing",
 "Exporting a model into another one transfers all of its entities to the destination, with their values rescaled to the destination's unit and model scale and their line weights to its gradations, and leaves the source empty and reusable. The geometry is grouped under one new subfigure definition of the destination, which is returned: the instances (408) that no other entity uses or that are members only of a subfigure which nothing uses, else the trimmed surfaces (144) that nothing uses, else the solids (186). A model with nothing to group is left where it is, with success and no subfigure. All links between the transferred entities are preserved, entities already in the destination are untouched, repeated exports nest, and the name of the subfigure is the file name of the source without extension, or else a name that was not generated before.",
 ["histories","inputs"],"every source and destination content, unit combination, and sequence of exports into the same or nested assemblies",
 "The merge test exports fixed parts once and only counts entities.",
 ["src/iges/iges.cpp","src/entities/entity308.cpp","src/entities/entity408.cpp"],
 [("IGES::Export","src/iges/iges.cpp"),("GetNewPartName/GetNewAssemblyName","src/iges/iges.cpp")],
 ["entities of both models"],["return value, source/destination contents, written files"])
p("T01","Transforms compose along the parent chain and place instances correctly",
 "The matrix reported for a transformed entity is the ordered composition of its whole chain of transformation matrices, a curve's transformed end points are that matrix applied to its own coordinates, and a composite curve's are those of its first and last members placed by their own transforms and then by its own. Changing, replacing or deleting any matrix in the chain takes effect everywhere it is used.",
 ["histories","inputs"],"every chain of integer rotations/translations, every relinking history",
 "Tests use single identity-like transforms and never query composed ones.",
 ["src/entities/entity124.cpp","src/entities/entity408.cpp","src/entities/entity100.cpp","src/entities/entity110.cpp","src/geom/mcad_elements.cpp"],
 [("GetTransformMatrix",E+"entity124.cpp"),("MCAD_TRANSFORM/MCAD_MATRIX operators","src/geom/mcad_elements.cpp")],
 ["pTransform chain"],["GetTransformMatrix, GetStartPoint/GetEndPoint(xform=true)"])
p("G01","Segment intersection reports exactly the common points, symmetrically",
 "For any two line, arc or circle segments with finitely many common points the reported intersections are exactly those points, each once, whichever of the two segments is asked; nothing is reported for segments that do not meet. A line touching a circle or arc is flagged as tangent; two circles or arcs that only touch are flagged as tangent without a point. A common stretch is flagged as an edge and only points of both segments are reported; identical circles are flagged as identical, and a circle enclosed by another as inside, the other as encircling.",
 ["inputs"],"all pairs of segments with end points and centres on an integer grid, in every relative position and direction",
 "The segment test samples a few dozen hand-picked pairs.",
 ["src/geom/mcad_segment.cpp"],[("GetIntersections: checkLines/checkArcLine/checkArcs/checkCircles","src/geom/mcad_segment.cpp")],
 ["segment parameters"],["GetIntersections result list and flag"])
p("G02","Splitting a segment partitions it: same path, same direction, same length",
 "Splitting a line, arc or circle at one or two of its points yields consecutive segments that together trace exactly the original path in the original direction, meet exactly at the split points, and whose lengths add up to the original; bounding boxes, midpoints and angles agree with the geometry. Invalid split requests are refused and leave the segment unchanged.",
 ["inputs"],"all segments and split points on an integer/Pythagorean grid, both orientations, one or two points in any order",
 "The segment test splits a few fixed shapes.",
 ["src/geom/mcad_segment.cpp"],[("Split/splitLine/splitArc/splitCircle, GetBoundingBox, GetMidpoint","src/geom/mcad_segment.cpp")],
 ["segment parameters"],["getters of all resulting segments"])
p("G03","Outlines accept only connected chains, and inside/outside is exact",
 "An outline accepts a segment only if it starts where the chain ends, becomes closed exactly when the chain returns to its start (a circle closes it alone), accepts nothing more once closed, and is contiguous afterwards. For a closed outline that does not meet itself a point is reported inside exactly when it is geometrically on or inside the boundary, for any mixture of lines and arcs and either drawing direction.",
 ["histories","inputs"],"all short chains of grid segments in any order and orientation, and all grid points tested against closed outlines",
 "The outline tests draw a handful of shapes and test few points.",
 ["src/geom/mcad_outline.cpp"],[("AddSegment/IsClosed/IsContiguous/IsInside","src/geom/mcad_outline.cpp")],
 ["msegments","mIsClosed","mWinding"],["return values; GetSegments"])
p("G04","Adding or subtracting outlines gives the exact union or difference",
 "When adding or subtracting a closed outline or circle to or from another succeeds, a point off the boundary is inside the result exactly when it is inside the union, respectively the difference, of the two, and the result is again one closed contiguous outline that can be operated on further. When the boundaries properly cross in exactly two points the operation succeeds; when they do not meet, or cross more often, it is refused and the areas of both are unchanged. Cutouts added to an outline remove exactly their area, by changing the boundary they cross, growing the cutout they cross, or being kept apart.",
 ["histories","inputs"],"all pairs and sequences of grid polygons/arcs/circles within the supported two-crossing restriction",
 "The outline test applies few fixed shapes and its output is mostly for visual inspection.",
 ["src/geom/mcad_outline.cpp"],[("opOutline, AddOutline, SubOutline, AddCutout","src/geom/mcad_outline.cpp")],
 ["msegments","mcutouts","mholes"],["IsInside sampling, GetSegments, return values"])
p("G05","Board solids are watertight: every boundary edge meets exactly two faces",
 "For any closed board outline with any set of valid cutouts and holes, the generated vertical walls and trimmed top and bottom planes together form closed shells: each boundary piece of outline, cutout and hole appears exactly once in the top plane loop, once in the bottom plane loop, and as one wall between the two heights. Every trimmed surface is complete, every trimming loop is closed, and its 2D parameter loop maps onto its 3D loop.",
 ["inputs"],"all outlines, cutouts, holes and height pairs on a grid, both outline directions",
 "Tests generate a few boards and only count the resulting entities.",
 ["src/geom/iges_geom_pcb.cpp","src/geom/geom_wall.cpp","src/geom/geom_cylinder.cpp"],
 [("GetVerticalSurface/GetTrimmedPlane/GetSegmentWall/GetCurveOnPlane","src/geom/iges_geom_pcb.cpp")],
 ["entities 144/142/102/126/128/100/110 created"],["entity graph and coordinates of the generated model"])
p("I01","IDF files are accepted exactly when their section structure is legal",
 "Reading an IDF 3 board with its library succeeds exactly when both files follow the IDF 3 grammar: mandatory header and one board outline, known section keywords each properly opened and closed in a legal place, legal side, unit, plating and placement values, numbers where numbers are required, well-formed closed loops, distinct other-outline identifiers and consistent placements of one designator. An accepted file yields exactly the board it states (lengths in mm whatever the unit); an outline without a legal owner is unowned and a part missing in the library is substituted by a default outline or, on request, left out. A rejected file reports failure and leaves no partial board, the board object can be used again, and the parser never crashes.",
 ["inputs","fault_sequences"],"every sequence of sections and every single field fault in valid board and library files",
 "Tests convert two well-formed sample boards only.",
 ["src/idf/idf_parser.cpp","src/idf/idf_outlines.cpp","src/idf/idf_common.cpp"],
 [("section state machine: readBoardFile/readBoardSection/readLibFile","src/idf/idf_parser.cpp"),("readData of each outline class","src/idf/idf_outlines.cpp")],
 ["IDF3_BOARD containers"],["ReadFile result, board contents"])
p("I02","IDF data survives write and read unchanged in either unit",
 "A board read from or built through the IDF interface and written out in either unit is a legal IDF 3 board and library file that is read back with the same board name, outlines (loops, arcs, thickness, owner, side, identifier, comments), drilled holes, notes, components with their placement and offsets, and used component outlines with unit, class, height and properties. Loops of wrong winding are written in reverse; outlines without loops and components without holes and outlines are not written; file versions are counted up. Lengths are preserved to the written precision independent of the file unit, and writing leaves the board as it was apart from unit and versions.",
 ["inputs","histories"],"all boards built from the supported objects, in mm and THOU units",
 "No test writes an IDF file.",
 ["src/idf/idf_parser.cpp","src/idf/idf_outlines.cpp","src/idf/idf_common.cpp"],
 [("WriteFile/writeBoardFile/writeLibFile","src/idf/idf_parser.cpp"),("writeData of each outline","src/idf/idf_outlines.cpp")],
 ["IDF3_BOARD containers"],["second ReadFile; bytes of both writes"])
p("I03","IDF owner rules decide who may change an object",
 "An outline owned by the electrical side can be changed, re-owned, emptied or have loops added or removed only by an electrical CAD, one owned by the mechanical side only by a mechanical CAD, and an unowned one by either; the same holds for deleting drilled holes by their owner and for changing or deleting components, their holes and their outline data by the component's placement value. A refused change reports failure and has no effect, and an accepted one changes exactly what was asked. Adding a hole, a component, or a slot is open to both sides.",
 ["histories"],"every history of add/modify/delete/set-owner calls by either CAD type",
 "The conversion tests never modify a board.",
 ["src/idf/idf_common.cpp","src/idf/idf_outlines.cpp","src/idf/idf_parser.cpp"],
 [("CheckOwnership/checkOwnership","src/idf/*.cpp")],["owner","CAD type"],["return values, object values"])
p("I04","Board conversion places every component, hole and side exactly as stated",
 "Converting an IDF board yields an IGES assembly in which the board solid has the stated outline, thickness and holes, and each placed component of non-zero height appears once, as the extruded outline of its part, at the stated position, rotation, side and mounting offset.",
 ["inputs","configurations"],"all boards over a grid of outlines, holes, components, placements, sides and units",
 "The conversion test compares nothing but the ability to re-read the result.",
 ["src/idf/idf2igs.cpp","src/geom/iges_geom_pcb.cpp"],
 [("idf2igs board/component generation","src/idf/idf2igs.cpp")],["IGES model built"],["re-read IGES output file"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P), max(len(x['title']) for x in P))
