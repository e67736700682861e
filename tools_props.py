import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

ENT=["ifc_rs/src/objects","ifc_rs/src/geometry","ifc_rs/src/relations","ifc_rs/src/units","ifc_rs/src/materials","ifc_rs/src/properties","ifc_rs/src/values","ifc_rs/src/parser"]
p("P01","Load followed by save loses, invents and moves nothing",
"Loading a file and saving it again keeps every instance of a supported kind: the same instance number, the same kind, and the same attribute values in the same positions, with none dropped, reordered, defaulted or invented. Only the spelling of a value may change: layout and comments, equal spellings of a number or truth value, the encoding of letters in strings, the deprecated standard-case kinds of walls, slabs, doors and windows becoming the plain kind, and a number given for the derived coordinate dimension of a sub context becoming the derived marker.",
["inputs"],"Every file made of instances of the supported kinds with attribute values of the declared types (present, omitted or derived, lists of any length), in any instance order and numbering.",
"The tests round-trip one or two hand-written lines per kind and one example project; attribute combinations (omitted next to present values, empty and long lists, every enumerator) are far beyond them.",
ENT,[("per-kind reader and writer","impl IFCParse / impl Display of each entity"),("optional and list attributes","ifc_rs/src/parser/optional.rs, ifc_rs/src/parser/list.rs"),("instance table","ifc_rs/src/meta/datamap/deserialize.rs, serialize.rs")],
[("instances","instance number to entity","ifc_rs/src/meta/datamap/mod.rs DataMap")],"the text given to IFC::from_str and the text written by Display")
p("P02","Entities the library does not know pass through unchanged",
"An instance the library does not support, including one of a supported kind whose attributes it cannot interpret, is saved with exactly the characters it had between its equals sign and its closing semicolon (surrounding layout aside). This holds whatever its attributes contain, including semicolons, escaped quotes, brackets and comment marks inside strings or comments, and such an instance never changes how any other instance is read.",
["inputs"],"Every well-formed instance of any kind name and any nesting of attributes, mixed in any order with supported instances.",
"The tests contain a single example of an unsupported entity in a real-world file; the hostile contents (separators within strings, supported names with foreign attribute lists) never occur.",
["ifc_rs/src/parser/dummy.rs","ifc_rs/src/meta/datamap/deserialize.rs","ifc_rs/src/parser/mod.rs"],
[("catch-all entity","ifc_rs/src/parser/dummy.rs Dummy"),("order of alternatives","ifc_rs/src/meta/datamap/deserialize.rs, ifc_rs/src/objects/mod.rs")],None,"saved text of the instance and its neighbours")
p("P03","Saved output is always loadable and saving is stable",
"Whatever the library saves, for a loaded file or for a model made with its API whose references are in place, it can load again without an error. Saving the reloaded model gives exactly the same text.",
["inputs","programs"],"Every accepted file and every model built by a sequence of builder or entity API calls with finite numbers and strings without backslashes.",
"The tests compare the text before and after for about twenty fixed models; unusual values, kinds and combinations that write a text the reader rejects are not among them.",
ENT+["ifc_rs/src/lib.rs","ifc_rs/src/meta","ifc_rs/src/ifc_builder"],[("writers","impl Display of header, data, footer and every entity"),("reader","ifc_rs/src/lib.rs IFC::from_str")],None,"IFC::from_str(ifc.to_string())")
p("P04","No text makes the loader crash",
"Loading any text ends with either a model or an error; it never panics, overflows, exhausts the stack or runs forever. A model that was loaded can also always be saved without a panic.",
["inputs"],"Every string, well-formed or not: arbitrary characters, truncated, spliced and mutated files, references to missing instances, out-of-range numbers and dates, deep nesting.",
"The tests only load valid files; none gives the loader anything it should refuse.",
["ifc_rs/src/lib.rs","ifc_rs/src/parser","ifc_rs/src/meta","ifc_rs/src/id","ifc_rs_verify_derive/src/field.rs"],
[("reader","ifc_rs/src/lib.rs IFC::from_str"),("reference verification","ifc_rs_verify_derive/src/field.rs"),("date and number conversion","ifc_rs/src/parser/timestamp.rs, ifc_rs/src/meta/header/deserialize.rs")],None,"outcome of IFC::from_str under a panic monitor, in overflow-checked and sanitized builds")
p("P05","An accepted file is taken in completely, a damaged one is refused",
"When a file is accepted, the model holds exactly one instance for every numbered instance of the text and no others, under the same numbers. A file that was cut off anywhere before its end mark, lacks its header, one of its header records or its data section, has a second data section, carries further text after its end mark, or numbers two instances alike is refused. A file whose data section is damaged in another way, such as a missing semicolon between two instances, is refused or still taken in completely.",
["inputs","crash_points"],"Every well-formed file, every truncation point of it, every duplication of an instance number, missing or repeated section, missing header record or trailing text, and every removal, insertion or repetition of characters in its data section.",
"No test counts the instances of a loaded file against its text and none loads a damaged file.",
["ifc_rs/src/meta/datamap/deserialize.rs","ifc_rs/src/meta/footer","ifc_rs/src/lib.rs","ifc_rs/src/meta/header/deserialize.rs"],
[("instance loop","ifc_rs/src/meta/datamap/deserialize.rs DataMap::parse"),("whole-file parse","ifc_rs/src/lib.rs IFC::from_str")],[("instances","instance number to entity","ifc_rs/src/meta/datamap/mod.rs DataMap")],"DataMap::contains / Display after IFC::from_str")
p("P06","References to wrong or missing instances are refused on load",
"A file in which a type-checked reference points to a supported instance of a kind not allowed at that attribute, or to an instance that is not in the file, is refused with an error. The error names the number of the instance that holds the bad reference.",
["inputs"],"Every type-checked reference attribute of every supported kind (alone, optional, or at any place of a list), every wrong target kind, and missing targets. Not type-checked, and so outside: the related and relating objects of type and property definitions and of declarations, objects of material associations, property sets and applicable occurrence of type objects, properties of material properties, units of property values and dimensions of units.",
"No test loads a file with a bad reference.",
["ifc_rs_verify_derive/src","ifc_rs/src/lib.rs","ifc_rs/src/traits/ifc_type.rs"]+ENT[:6],
[("generated check functions","ifc_rs_verify_derive/src/field.rs"),("allowed kinds","#[ifc_types(..)] and TypedId<..> attributes of every entity"),("driver","ifc_rs/src/lib.rs IFC::from_str")],None,"Result of IFC::from_str")
p("P07","Files with correct references are never refused",
"A well-formed file whose references all point to instances of an allowed kind is accepted, wherever the target stands in the file and whether it comes before or after. A reference to an instance of a kind the library does not support is accepted too.",
["inputs"],"Every supported kind, every reference attribute, every allowed target kind or unsupported target kind, forward and backward references, shared targets.",
"The tests load a handful of files that use few of the allowed combinations (for example only one of the three allowed kinds of object placement).",
["ifc_rs_verify_derive/src","ifc_rs/src/lib.rs"]+ENT[:6],[("generated check functions","ifc_rs_verify_derive/src/field.rs"),("allowed kinds","#[ifc_types(..)] attributes of every entity")],None,"Result of IFC::from_str")
p("P08","Layout, comments and instance order do not change what is read",
"Two files with the same tokens read as the same model, whatever spaces, tabs, line breaks and comments stand between two tokens, in the header, around the instances or inside of them, whatever those comments contain. The order in which instances are written does not matter either.",
["inputs"],"Every supported file and every placement of layout and comments between tokens; every permutation of the instances.",
"A few tests use one fixed layout with comments; they cannot cover places times contents times kinds.",
["ifc_rs/src/parser/mod.rs","ifc_rs/src/parser/comma.rs","ifc_rs/src/parser/list.rs","ifc_rs/src/meta"],[("layout skipping","ifc_rs/src/parser/mod.rs p_space_or_comment_surrounded"),("separators","ifc_rs/src/parser/comma.rs, list.rs")],None,"saved text of both variants")
p("P09","Text values survive exactly",
"A text value without backslashes that is put into a model, in any text attribute or header field and by a file or by the API, is saved as a valid exchange-format string and reads back as the same text. In entity attributes, umlauts are written in the escaped form and read from it.",
["inputs"],"Every Unicode string without backslashes, including quotes, separators, comment marks, line breaks, umlauts and other non-ASCII letters, empty and long ones.",
"One test checks the seven umlauts; quotes and separators inside strings are not tested.",
["ifc_rs/src/parser/string.rs","ifc_rs/src/parser/mod.rs","ifc_rs/src/meta/header"],[("encode and decode","ifc_rs/src/parser/string.rs StringPrimitive"),("quoted words","ifc_rs/src/parser/mod.rs p_quote_word"),("header strings","ifc_rs/src/meta/header/serialize.rs, deserialize.rs")],None,"saved token and reloaded attribute")
p("P10","Numbers, truth values and times survive exactly",
"Every finite real number, 64-bit integer, truth value and whole-second time stamp put into a model is saved as a valid exchange-format value that reads back as exactly the same value. A number read from a file is the one nearest to its written form.",
["inputs"],"All finite doubles (subnormal, huge, negative zero, 17-digit), all 64-bit integers, the three truth values in both spellings, all representable time stamps, in every kind of numeric attribute including coordinates.",
"The tests use short decimals; precision loss shows only at numbers with many digits.",
["ifc_rs/src/parser/real.rs","ifc_rs/src/parser/integer.rs","ifc_rs/src/parser/bool.rs","ifc_rs/src/parser/timestamp.rs","ifc_rs/src/parser/geometry.rs","ifc_rs/src/values"],[("real writer","ifc_rs/src/parser/real.rs format_real_primitive"),("readers","IFCParse of the primitives")],None,"saved token and reloaded attribute")
p("P11","Globally unique ids are kept, valid and distinct",
"A valid globally unique id of a file is kept character by character through loading and saving, two different ids never become equal, and an id that is not valid is never silently replaced by another one. An id the library makes has 22 characters of the defined alphabet with a first character from 0 to 3, is drawn at random so that each of its characters varies, and no two objects made by the library ever share one.",
["inputs","programs"],"All 128-bit ids, all 22-character texts, and any number of objects created through the API.",
"Two tests check one id from the standard; the 2^128 ids and collisions between created objects are not examined.",
["ifc_rs/src/id/ifc_uuid.rs","ifc_rs/src/objects/shared/root.rs"],[("base 64 coding","ifc_rs/src/id/ifc_uuid.rs"),("fresh id per object","ifc_rs/src/objects/shared/root.rs Root::new")],None,"first attribute of rooted entities in the saved text")
p("P12","The instance store behaves like a map with fresh numbers",
"After any sequence of insertions, replacements, removals and in-place edits, looking up a number gives the last value stored there and nothing else, and an insertion without a number gets one that was free, so it never replaces a stored value. Listing the instances of one type gives each stored instance of exactly that type once, in increasing order of numbers, and the saved data section lists exactly the stored instances in that order.",
["histories"],"All histories of store operations over arbitrary instance numbers below the largest representable one, and mixed entity types.",
"The tests only insert in sequence and never remove, overwrite or mix explicit and automatic numbers.",
["ifc_rs/src/meta/datamap/mod.rs","ifc_rs/src/meta/datamap/serialize.rs"],[("operations","ifc_rs/src/meta/datamap/mod.rs DataMap")],[("map","instance number to boxed entity","ifc_rs/src/meta/datamap/mod.rs DataMap.0")],"return values of the store and the saved data section")
p("P13","A model from the project builder is complete and self-consistent",
"Whatever sequence of builder calls made it, the model of the project builder loads again, every reference in it points to an existing instance of a kind the standard allows there, every globally unique id occurs once, and there is exactly one project with its units, representation context and owner history. Every product carries the owner history of the project, a placement and, if it is a building element, opening or space, a shape in the body context. The project, its owner and application, all products, types, materials, layers and constituents carry the names, kinds and values they were given.",
["programs"],"All builder programs with finite numbers and directions that are not zero: any number and nesting of sites, buildings, storeys, materials, types, elements, openings, windows, properties and transforms, in any order the API permits.",
"Each builder test makes one small model of one kind of element and compares it with its own reload.",
["ifc_rs/src/ifc_builder"],[("project set-up","ifc_rs/src/ifc_builder/project.rs"),("deferred relations","Drop of the builders in ifc_rs/src/ifc_builder")],[("pending relations","types, materials and openings collected until a builder is dropped","IfcStoreyBuilder, IfcProjectBuilder fields")],"text returned by IfcProjectBuilder::build")
p("P14","Builder relations record exactly the structure that was built",
"In a built model each site, building, storey and space is aggregated exactly once, under the parent it was created from; each wall, slab, roof, window and shading device is contained exactly once, in the storey it was created in; each opening voids exactly the wall or slab it was made in, and each window fills exactly its own opening. Every element is related exactly once to the type and exactly once to the material it was given, every type to its material, and property sets, with the properties given, to exactly the elements they were added to (each storey also to a set with its elevation), with no further relation of these kinds.",
["programs"],"All builder programs, including shared and unused types and materials, several elements per storey and several openings per element.",
"The builder tests do not look at the relations; they compare saved texts with themselves.",
["ifc_rs/src/ifc_builder","ifc_rs/src/relations"],[("relations of a storey","ifc_rs/src/ifc_builder/storey.rs Drop"),("material relations","ifc_rs/src/ifc_builder/project.rs build"),("aggregation","Drop of site, building and project builders"),("property relations","ifc_rs/src/ifc_builder/properties.rs, walls.rs")],[("pending relations","maps from types, materials and openings to elements","IfcStoreyBuilder, IfcProjectBuilder fields")],"relation instances of the built text")
p("P15","Builder geometry has the requested sizes and places",
"Every element of a built model has the shape that was asked for: the given outline or rectangle, extruded in the given direction by the given height or by the total thickness of its material layers. A shading device is a rectangle of its length and height raised by its thickness. An element stands where it was asked to stand: its placement is the requested offset relative to its storey, wall, slab or opening, and storeys lie at their elevation above their building.",
["programs"],"All builder programs without transforms, with finite sizes, outlines, offsets and elevations, directions that are not zero, and any number of material layers.",
"No builder test inspects coordinates.",
["ifc_rs/src/ifc_builder","ifc_rs/src/geometry/product_definition_shape/mod.rs","ifc_rs/src/traits/relative_placement.rs","ifc_rs/src/geometry/local_placement/mod.rs"],[("shapes","ifc_rs/src/geometry/product_definition_shape/mod.rs"),("relative placement","ifc_rs/src/traits/relative_placement.rs LocalPlacement::new_relative"),("thickness","ifc_rs/src/ifc_builder/materials.rs calculate_material_layer_set_thickness")],None,"placements and shapes of the built text")
p("P16","Transforming an element moves all of it rigidly",
"After a builder transform of an element, its whole shape appears exactly at the requested rotation and translation of the original, and the shapes of all openings made in it and of the windows in those openings appear at the same transform, so that they keep their position relative to it. A body stays a body and an axis an axis. Nothing else in the model moves. A transform of a single product given to its storey moves that product alone, and several transforms of one product are applied one after the other.",
["programs"],"All builder programs that transform walls, slabs and their attached openings and windows, or single products, by any rotation and translation, with any number of openings at any offsets, shapes with extent. A mapped shape is placed by its mapping origin first and its mapping target after that.",
"One test transforms one wall and compares the saved text with its own reload.",
["ifc_rs/src/ifc_builder/transforms.rs","ifc_rs/src/ifc_builder/walls.rs","ifc_rs/src/ifc_builder/slabs.rs","ifc_rs/src/relations/mapped_item.rs"],[("transform","ifc_rs/src/ifc_builder/transforms.rs"),("attached elements","Drop of the wall and slab builders")],[("pending transform","transform kept until the element builder is dropped","IfcWallBuilder, IfcSlabBuilder fields")],"shapes of the built text, evaluated")
p("P17","Queries over a loaded model answer exactly what the file says",
"Asking a loaded model for its projects, the parts of an object, the elements of a storey, the type, the openings or the material of an element gives exactly the instances that the relations of the file state, none missing and none from other objects. Material is asked as the layers of a layer set usage, in their order, and as the constituents of a constituent set; an element that was found tells its kind. Openings, layers and constituents of kinds the library does not support are left out of these answers, and never make a query panic.",
["inputs"],"Every file with any number of projects and relations between instances of supported and unsupported kinds, objects without relations, several relations for one object, and queries for every object; the type is asked for elements that have exactly one, of a supported kind.",
"One test prints the hierarchy of an example file without comparing it with anything.",
["ifc_rs/src/ifc_extractor/mod.rs","ifc_rs/src/traits/sub_types.rs"],[("queries","ifc_rs/src/ifc_extractor/mod.rs IfcExtractor")],None,"return values of the extractor methods")
p("P18","The resolved view of geometry equals the referenced data",
"The resolved view of a placement, axis, profile, curve, extrusion, shape or transformation shows exactly the numbers and kinds of the instances it refers to, in the same order, and shows an optional part exactly when the file gives it.",
["inputs"],"Every geometry instance of every file whose references are valid and point to supported kinds (items of a shape may be unsupported ones): two- and three-dimensional variants, omitted optional parts, shared and nested instances, curves with at least one point and all points of one dimension.",
"No test compares a resolved view with the data of the file.",
["ifc_rs/src/geometry","ifc_rs/src/traits/ifc_mapped_type.rs","ifc_rs/src/relations/mapped_item.rs","ifc_rs/src/relations/representation_map.rs"],[("resolution","impl IfcMappedType of the geometry types")],None,"return values of mappings()")
p("P19","The header is kept",
"Loading and saving a file keeps every header value: file name, time stamp to the second as the same instant, authors, organisations, preprocessor, originating system, authorisation, view definitions with their items in order, and the schema list. Only equivalent spellings change: an omitted file name becomes an empty one, a schema name becomes its official form, surrounding spaces and empty items of view definitions are dropped. A header with a schema, version, implementation level or time stamp that the library does not know is refused or kept, never changed into another one.",
["inputs"],"Every header with any number of authors, organisations, view definitions and schemas, any texts without backslashes, and time stamps of the years 0001 to 9998 with or without offset.",
"The header tests parse five fixed headers and compare none of the values with the text they save.",
["ifc_rs/src/meta/header","ifc_rs/src/meta/version.rs","ifc_rs/src/meta/footer"],[("reader","ifc_rs/src/meta/header/deserialize.rs"),("writer","ifc_rs/src/meta/header/serialize.rs")],None,"header fields after loading and header records of the saved text")
p("P20","Loading from disk equals loading the text and fails cleanly",
"Loading a file from disk gives the same result as loading its content as text. A missing or unreadable path, a directory, a file that is not valid UTF-8 or was cut off gives an error, never a panic and never a partial model, and loading never changes the file.",
["inputs","fault_sequences"],"Every file content (accepted, refused, empty, cut at any byte, not UTF-8) and every failing path.",
"The tests load two files that exist and are valid.",
["ifc_rs/src/lib.rs"],[("file loading","ifc_rs/src/lib.rs IFC::from_file")],None,"Result of IFC::from_file against IFC::from_str")
p("P21","Supported entities are typed, with the values of the file",
"An instance of a supported kind whose attributes have the declared types is available after loading as that kind, and each of its attributes reads as exactly the value at that position of the file, including which enumerator is meant. It is listed under its own kind only.",
["inputs"],"Every supported kind, with every enumerator of its enumerations, omitted and derived values, lists of any length and any texts without backslashes or quotes.",
"The tests check attribute values of few kinds; reading a value into the wrong field and writing it back from there goes unnoticed by the round-trip tests.",
ENT,[("dispatch","ifc_rs/src/meta/datamap/deserialize.rs, ifc_rs/src/objects/mod.rs and the other group readers"),("attribute readers","impl IFCParse of each entity"),("enumerators","EnumString tables")],[("instances","instance number to typed entity","ifc_rs/src/meta/datamap/mod.rs DataMap")],"public attributes of the loaded entities")
p("P22","Entity constructors and setters set exactly the named attribute",
"An entity made with the construction API is saved with each constructor argument and each value given by a setter at the attribute position the standard defines for it, in the given order for lists. All other attributes stay as they were, and the order in which setters are called does not matter. (Setting the owner of an owner history also makes it the last modifier.)",
["programs"],"Every constructor and every sequence of setter calls of the entity API, with any values.",
"The tests call few of the setters and compare few of the results.",
ENT[:6],[("setters","builder traits and methods of each entity, e.g. RootBuilder, ProductBuilder in ifc_rs/src/objects/shared"),("writers","impl Display of each entity")],None,"saved text of the entity")
p("P23","A model depends on its own text and calls only",
"What loading, saving, asking, storing, constructing and building give depends only on the text and the calls that made the model: never on other models that were made, loaded, refused or dropped before, or that other threads work on at the same time, nor on the local time zone, locale or working directory. The same text gives the same model again or is refused again, and saving a model or asking it does not change it. (The clock, unique ids drawn at random, and the numbers, names and order of the relations written by the builder are excepted.)",
["schedules","histories","inputs","configurations"],"Every history of a process, every number of threads that each work on models of their own, and every time zone and locale.",
"The tests run each in a short-lived process, in one time zone, and compare no two runs with each other.",
ENT[:6]+["ifc_rs/src/lib.rs","ifc_rs/src/ifc_builder","ifc_rs/src/ifc_extractor"],[("loading and saving","ifc_rs/src/lib.rs IFC::from_str, IFC::from_file, Display"),("store","ifc_rs/src/meta/datamap/mod.rs DataMap"),("builder","ifc_rs/src/ifc_builder/project.rs")],None,"saved text, answers and numbers given, compared with those in a fresh process")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch)
    assert len(x["title"])<=80
    n=x["statement"].count('. ')+1
    if n>3: print(x["id"],n)
print(len(P))
