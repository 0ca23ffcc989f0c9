import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
N="crates/oxvg_ast/src/node.rs"; E="crates/oxvg_ast/src/element.rs"; AR="crates/oxvg_ast/src/arena.rs"
AT="crates/oxvg_ast/src/attribute.rs"; CL="crates/oxvg_ast/src/class_list.rs"; XW="crates/oxvg_ast/src/xmlwriter.rs"; SE="crates/oxvg_ast/src/serialize.rs"
PA="crates/oxvg_parse/src/lib.rs"; NU="crates/oxvg_parse/src/types/number.rs"
PP="crates/oxvg_path/src/parser.rs"; CMD="crates/oxvg_path/src/paths/svg/command.rs"; CV="crates/oxvg_path/src/paths/segment/convert.rs"; FM="crates/oxvg_path/src/format.rs"; GE="crates/oxvg_path/src/geometry.rs"; SG="crates/oxvg_path/src/paths/segment.rs"
NA="crates/oxvg_collections/src/name.rs"; LO="crates/oxvg_collections/src/attribute/list_of.rs"; TR="crates/oxvg_collections/src/attribute/transform.rs"; ATOM="crates/oxvg_collections/src/atom.rs"
links=[("parent/next_sibling/previous_sibling/first_child/last_child","the five link cells of every node",N+":Node")]

p("C01","Moving one node leaves a consistent tree with exactly the requested order",
"Appending, prepending, inserting before or after a sibling, inserting at an index, replacing a child, replacing an element, or removing a node leaves every parent, sibling, first-child and last-child link of the forest mutually consistent. The affected child lists are exactly the ones the DOM operation of that name prescribes (a node that already had a parent leaves its old place), and no other node's links or content change.",
["inputs","histories"],"every well-formed forest of nodes, every operation of the list, and every choice of operands that does not put a node inside itself",
"Existing tests run whole optimiser jobs on fixed documents; the operations are almost only reached with a detached node or in the middle of a list, so first/last/only-child positions and nodes moved from another parent are not covered for most operations.",
[N,E],[("Node::remove/append_child/insert_before/insert_after/insert/replace_child/remove_child/remove_child_at",N),("Element::append/prepend/before/after/replace_with",E)],
["links and child lists of every node after the call"],links)

p("C02","Bulk child edits leave a consistent tree with exactly the requested children",
"Emptying a node, replacing its text, keeping only chosen children, replacing all children, splicing an element's children into its place, renaming an element, and sorting child elements leave all links of the forest mutually consistent. The resulting child lists are exactly the prescribed ones in order, nodes that drop out of a list become parentless, and nothing else changes (a renamed element keeps its attributes, children and place).",
["inputs","histories"],"every well-formed forest, every subset to keep, every comparison result, every list of replacement children",
"Tests look at the serialised text of a few documents; serialisation follows only some of the links, so a stale sibling or parent link stays invisible until a later edit follows it.",
[N,E],[("Node::empty/set_text_content/retain_children",N),("Element::replace_children/flatten/sort_child_elements",E)],
["links and child lists of every node after the call"],links)

p("C03","Reading the tree reports exactly the nodes that are there",
"Iterating children from either end or from both ends interleaved, counting, indexing and searching children, membership tests, element-only child and sibling queries, nearest-ancestor queries and the descendant walk report exactly the nodes of the tree in document order (breadth-first for the descendant walk), each once, and change nothing.",
["inputs"],"every well-formed forest, every start node, every interleaving of front and back steps of the child iterator",
"Tests exercise forward iteration on fixed documents; interleaved double-ended iteration that meets in the middle and queries at the ends of a list are not covered.",
[N,E],[("ChildNodes iterator, child_node_count, item, child_index, contains, has_child_nodes",N),("children_iter, first/last_element_child, next/previous_element_sibling, parent_element, closest, find_element, breadth_first",E)],
["values returned by the queries"],links)

p("C04","Node ids are unique, stable handles and renumbering follows document order",
"Every allocated node has an id different from that of all others and looking the id up returns that node. Renumbering from a root gives the root and its descendants the ids 0,1,2,... in document order, keeps the relative order of all other nodes, reports the size of the tree, and keeps lookup and enumeration consistent with the new ids.",
["inputs","histories"],"every sequence of allocations and renumberings and every forest built on the allocated nodes",
"Only one fixed document is renumbered in tests; nodes outside the tree, detached subtrees and renumbering from an inner node are not reached.",
[AR],[("Allocator::alloc/get/iter/reorder",AR)],["ids, lookup and enumeration"],[("indices","id to node table",AR+":Allocator")])

p("C05","An element's attributes behave as an ordered map keyed by qualified name",
"Setting an attribute replaces the value stored under the same qualified name in place or adds one at the end, removing deletes exactly that name and returns its value, lookups by name, local name, namespace or index return exactly the stored attribute, filtering keeps exactly the chosen ones in order, and sorting only reorders. No sequence of such operations creates two attributes with one name or disturbs an attribute with another name.",
["inputs","histories"],"every attribute list, every sequence of set/remove/retain operations, known, aliased, prefixed and unknown names",
"Tests reach the collection through jobs that look up a handful of fixed unprefixed names; prefixed, aliased and unknown names with equal local parts are not combined.",
[AT],[("Attributes::get_named_item*/set_named_item/remove_named_item/item/retain and iterators",AT)],["attribute list after each call, returned values"])

p("C06","Class-list operations behave as edits of an ordered token set",
"Adding, removing, replacing, toggling, filtering and testing class tokens change and report the element's class tokens exactly as the token-set operations prescribe, keep the order of the other tokens, never introduce a duplicate, and leave every other attribute untouched. This holds for a class-list view that is kept while other attributes are added to or removed from the element.",
["inputs","histories"],"every attribute list, every initial token list without duplicates, every sequence of operations, including edits of other attributes between two uses of one view",
"Unit tests use one class attribute at a fixed position; the remembered attribute position is never made stale.",
[CL],[("ClassList and its index memo",CL)],["class attribute value, other attributes, returned booleans"],[("class_index_memo","remembered position of the class attribute",CL)])

p("C07","Written text and attribute values decode back to the original characters",
"For every text and every attribute value the writer's output contains no raw markup-significant character (no bare less-than or ampersand, and no quote that would end the attribute), and decoding the predefined entities of the output yields exactly the original characters. This holds for both quote styles and however the value is split into pieces.",
["inputs","configurations"],"every string, both quote styles, text and attribute positions, every split of the string into consecutive writes",
"Tests write a few plain values; values that start or end with, or consist of, special characters and multi-piece writes are not covered.",
[XW],[("FmtWriter::write_escaped and the escape mode set before each write",XW)],["bytes written"],[("escape","escape mode of the pending write",XW)])

p("C08","The XML writer produces balanced, properly nested markup",
"For every sequence of start, attribute, text, CDATA, comment and end calls (comment text without two hyphens) the writer either reports an error for a call that is illegal at that point or the finished document is well-formed: start and end tags are balanced and nested in call order, attributes appear inside their element's start tag, and content appears between the tags of the innermost open element. The options for indentation, attribute indentation, quoting and self-closing never change that structure.",
["inputs","configurations","histories"],"every call sequence, every combination of writer options",
"Tests serialise whole documents with default or pretty options; attribute indentation, disabled self-closing and unusual call orders are hardly combined.",
[XW,SE],[("State machine and depth_stack",XW),("serialize_node",SE)],["the written document, returned errors"],[("state, depth_stack","writer position and open elements",XW)])

p("C09","Whitespace options change whitespace only, in the documented way",
"With whitespace handling off the written text equals the input text up to escaping; in preserve mode each newline and tab becomes one space and nothing else changes; in default mode runs of XML white space become one space, which is dropped only at the beginning and end of an element's content, and every other character, including no-break spaces, survives in order. In automatic mode an xml:space attribute selects the mode for its own element and what is inside it, and nothing else, and indentation adds no white space inside text elements.",
["inputs","configurations"],"every text content element and text, each whitespace mode, first/middle/last position among its siblings, written without indentation",
"Snapshot tests fix a few texts; the combination of mode, sibling position and whitespace placement is open-ended.",
[XW],[("XmlWriter::write_text",XW)],["written text"])

p("C10","Serialising a document and parsing it again gives the same document",
"Reading any document, writing it without whitespace handling and reading the output back yields the same elements and attributes under the same namespaces and names, the same attribute values, text, comments and processing instructions, in the same order, and the tree that was read has consistent links. Namespace declarations hold for exactly the element they are on and what is inside it.",
["inputs","configurations"],"every well-formed document over elements, attributes, namespace declarations, text, comments, processing instructions and style elements; attribute values without line breaks or tabs",
"Tests compare output text with snapshots; they never read the output back and never inspect the links of the parsed tree.",
[SE,XW,"crates/oxvg_ast/src/parse/roxmltree.rs"],[("serialize_node",SE),("roxmltree parser",'crates/oxvg_ast/src/parse/roxmltree.rs')],["tree read back"])

p("C11","Value-parser primitives consume exactly what they report",
"Each primitive of the value parser consumes exactly the characters it matched: skipping stops at the first character that does not match, an expectation that fails inside a trial leaves the position unchanged, and identifiers are exactly the longest run of name characters of the XML grammar. The position always stays on a character boundary inside the input, and no input makes a primitive panic.",
["inputs","histories"],"every UTF-8 input including multi-byte characters, every sequence of primitives",
"Tests parse short ASCII values; multi-byte characters and input that ends inside an expectation are not covered.",
[PA],[("Parser::read/advance/skip_*/take_*/expect_*/try_parse",PA)],["position after each call, returned slices"],[("cursor","byte position in the input",PA+":Parser")])

p("C12","Numbers are read by the SVG grammar and to the exact value",
"Reading a number consumes exactly the longest prefix that is a number of the SVG grammar (sign, digits, optional fraction, optional exponent that is not the start of a unit), and returns the nearest floating-point or exact integer value of that prefix. Input that does not start with a number, and values out of range of the requested type, are errors, never a wrong value.",
["inputs"],"every input string and every numeric type",
"Tests list about thirty strings, all numbers followed by nothing or by letters; a fraction or exponent followed by further dots, signs or digits is not covered.",
[NU,PA],[("Parse for f64/f32/i64/i32",NU)],["returned value and position"])

p("C13","Lists of values survive printing and parsing, with every separator",
"Parsing a separated list accepts exactly the separators its kind allows between items, yields the items in order, and fails without dropping items when a separator is missing or doubled. Printing a list and parsing it again yields the same list.",
["inputs"],"every list of values for each of the separator kinds (space, comma, space or comma, semicolon)",
"Tests parse two or three short lists per kind.",
[LO],[("ListOf Parse/ToValue and Separator impls",LO)],["parsed items, printed text"])

p("C14","Path commands are converted to the geometry the SVG rules prescribe",
"Converting path commands to segments yields, for each drawing command, the absolute end point and control points given by the SVG rules: relative forms offset by the current point, horizontal and vertical lines keep the other coordinate, smooth curves reflect the previous control point of a curve of the same kind only, and closing returns to the start of the sub-path. A sub-path is marked closed only when it was closed explicitly or ends where that same sub-path began.",
["inputs"],"every command sequence that starts with a move and every finite coordinate",
"Tests check optimised output of fixed icons; consecutive sub-paths, commands after a close and mixed curve kinds are barely covered.",
[CV,SG],[("Data::take, Segment::take, Path::from_svg",CV)],["segments returned"])

p("C15","Path data survives printing and parsing unchanged",
"Printing any path and parsing the text again yields the same commands with the same arguments (up to which are marked implicit, and with 0 equal to -0), whichever commands are marked implicit and however small, large, negative or fractional the arguments are.",
["inputs"],"every valid command sequence, every finite argument",
"Tests print paths with ordinary magnitudes; arguments printed with an exponent or next to a leading-dot number are not covered.",
[FM,PP,CMD],[("format and Args::fmt/is_space_needed",FM),("Path::parse",PP)],["printed text, commands read back"])

p("C16","Every text is either rejected or read as the path it denotes",
"Reading path data always terminates without panicking. It accepts exactly the texts of the SVG path grammar (with white space and commas mixed freely after an argument, and the empty text as the empty path), returning one command per written or repeated argument group with that command's number of arguments in order. It rejects all others.",
["inputs"],"every input string, including multi-byte characters",
"Tests parse around ten path strings; malformed text after a close command, non-ASCII flags and stray separators are not covered.",
[PP,PA],[("Path::parse_extend, command::Data::parse, parse_flag",PP)],["parse result"])

p("C17","Command classification agrees with the command letters and arguments",
"For every command, its letter, its number of arguments, whether it is absolute or relative, its implicit follow-up and its explicit form agree with the SVG path table; converting between letter, identity and data, and reading or writing single arguments, never changes the command kind or another argument. Rounding changes only the rounded arguments and keeps flags and the end point of an arc.",
["inputs"],"every command kind, explicit or implicit, with every argument value",
"Only kinds that occur in sample paths are covered, and never as a complete table.",
[CMD],[("Data/ID methods",CMD)],["returned ids, arguments"])

p("C18","Geometry primitives obey their defining laws for all finite numbers",
"Point arithmetic, reflection, minimum and maximum, quadrant and left/right selection, and rectangle measures return exactly the values of their defining formulas; rounding to a precision returns a value within half a unit of the last place kept and is monotone, and results on finite inputs in the supported range are never NaN.",
["inputs"],"every pair of finite coordinates, every precision",
"Doc-tests check one point per operation.",
[GE,"crates/oxvg_path/src/geometry/point.rs","crates/oxvg_path/src/geometry/rectangle.rs"],[("Point ops, Rectangle, TolerancePrecision",GE)],["returned numbers"])

p("C19","Transform conversions describe the same affine map",
"Converting a transform function to a matrix or between its CSS and its SVG form, merging a list to one matrix, and recognising a matrix as simpler functions describe the same map of the plane, within the tolerance of single precision and of the requested rounding. Reading a list of transform functions, of any length, yields the functions written, in order, and printing a list and reading it again yields the same map.",
["inputs"],"every list of transform functions with finite arguments; recognising is required of matrices that are singular or not nearly so, and functions that the CSS library gives no matrix for are left out",
"Tests convert a few sample transforms and compare text.",
[TR],[("SVGTransform and SVGTransformList: conversions, to_matrix_2d, matrix_to_transform, round, parse, write_value",TR)],["matrix entries, transform functions"])

p("C20","Names, prefixes and namespaces are coherent",
"Building a prefix from a namespace and an optional alias keeps both: the namespace and the alias can be read back unchanged. Names, and element and attribute ids, are equal exactly when namespace and local name are equal, whatever alias they are written with, and equal names have equal hashes. An aliased id has the flags and default value of the id it is an alias of.",
["inputs"],"every namespace (well known or not), every alias, every local name, all pairs; an empty namespace without alias stands for SVG",
"Tests use the well-known prefixes only, and never compare hash and equality.",
[NA,ATOM],[("Prefix/NS/QualName and their Eq/Hash/Ord",NA),("Atom Eq/Hash/Ord",ATOM)],["namespace, prefix text, equality, hash, order"])

p("C21","Known element and attribute names round-trip through their ids",
"Turning any qualified name into an element or attribute id and back yields the same local name and prefix, known names map to their known id and unknown names never do.",
["inputs"],"every known element and attribute name, every unknown name, with standard and aliased prefixes",
"Only the names in sample documents are covered, out of several hundred.",
["crates/oxvg_collections/src/element.rs","crates/oxvg_collections/src/attribute.rs"],[("ElementId::new / AttrId tables","crates/oxvg_collections/src/element.rs")],["local name and prefix of the id"])

p("C22","Generated ids never repeat and never collide",
"The ids produced by the id minifier are all different, are valid identifiers, grow in length only when all shorter ones are used, and skip every id that must be preserved or that a reference without a target names.",
["inputs","histories"],"every number of generated ids, every set of preserved ids and prefixes",
"Tests rename a handful of ids and never pass the first wrap to two letters.",
["crates/oxvg_optimiser/src/jobs/cleanup_ids.rs"],[("GeneratedId successor","crates/oxvg_optimiser/src/jobs/cleanup_ids.rs")],["ids in the output document"])

p("C23","Id clean-up keeps every reference pointing at its element",
"After ids are minified, removed or prefixed, every reference that resolved to an element before still resolves to the same element, a reference that led nowhere still leads nowhere, and no two elements that had different ids share one. Ids that are to be preserved keep their spelling.",
["inputs","configurations"],"every document without style sheets and scripts, with ids and references (url, href, animation targets), and every combination of the minify, remove and preserve options; for prefixing, no id that starts with the prefix already",
"Snapshot tests cover some ten documents with default-like options.",
["crates/oxvg_optimiser/src/jobs/cleanup_ids.rs","crates/oxvg_optimiser/src/jobs/prefix_ids.rs"],[("CleanupIds job","crates/oxvg_optimiser/src/jobs/cleanup_ids.rs")],["ids and references of the output document"])

p("C24","Source positions report the right line and column",
"The line reported for a byte position is the number of newlines before it and the column is its distance from the last newline before it. The ranges recorded for an element, and for an attribute, its name and its value, cover exactly their text in the source.",
["inputs"],"every source text and every position in it, including the end and positions on a newline",
"Lint snapshot tests cover a few positions in small files.",
[N],[("Ranges::to_line_and_col",N)],["line and column"])

p("C25","Optimised documents render the same as their originals",
"Running the default optimisation jobs on a document yields a document that renders to the same picture.",
["inputs","configurations"],"every valid SVG document and every job configuration",
"Snapshot tests fix the output text, not its rendering.",
["crates/oxvg_optimiser/src/jobs/mod.rs"],[("Jobs::run","crates/oxvg_optimiser/src/jobs/mod.rs")],["rendered output"])

p("C26","Optimising twice gives the same result as optimising once",
"Running the default jobs on their own output changes nothing.",
["inputs","configurations"],"every valid SVG document",
"Snapshot tests run each job once.",
["crates/oxvg_optimiser/src/jobs/mod.rs"],[("Jobs::run","crates/oxvg_optimiser/src/jobs/mod.rs")],["serialised output"])

p("C27","Computed styles follow the CSS cascade",
"The computed value of every property of an element is the one selected by importance, origin, specificity and order of the matching declarations, with inheritance for inherited properties. A value that a conditional rule may replace is reported as dynamic.",
["inputs"],"every document of known elements with presentation attributes, style attributes and style sheets",
"Tests compute styles for a few documents.",
["crates/oxvg_ast/src/style.rs"],[("ComputedStyles","crates/oxvg_ast/src/style.rs")],["computed property values"])

p("C28","Selectors match exactly the elements CSS prescribes",
"Selecting with any supported selector yields exactly the descendants that CSS selector matching prescribes, each once and breadth first.",
["inputs"],"every supported selector (types, ids, classes, attributes, structural pseudo-classes, negation, combinators, lists) and every document",
"Tests use simple type, class and id selectors.",
["crates/oxvg_ast/src/selectors.rs"],[("Select iterator and selectors::Element impl","crates/oxvg_ast/src/selectors.rs")],["selected elements"])

p("C29","The command line writes each result to its own place and nothing else",
"For every set of input paths and output options, each optimised document is written to the path derived from its input and no other file is created or changed; a failure on one file does not affect the others.",
["inputs","configurations","schedules"],"every directory tree, option set and order in which worker threads run",
"Tests run the walk on one small fixture directory.",
["crates/oxvg/src/walk.rs"],[("Walk","crates/oxvg/src/walk.rs")],["files written"])

p("C30","Converted JSX denotes the same document",
"Converting a document to JSX yields a component whose rendered element tree equals the document.",
["inputs","configurations"],"every document and template option",
"Snapshot tests of a few components.",
["crates/oxvg_jsx"],[("attribute and text conversion","crates/oxvg_jsx/src")],["JSX text"])
p("C31","Geometry written as path data draws the same geometry",
"Writing any geometry as path data yields commands that draw the same sub-paths, open or closed as before, with the same lines, curves and arcs, each point within the rounding that was asked for. Shorthands (relative or absolute, horizontal and vertical, smooth, quadratic, closing) are used only where they draw the same.",
["inputs"],"every sequence of sub-paths of lines, curves and arcs, with and without smart rounding of arcs, under the default tolerance",
"Tests write some thirty paths, mostly icons.",
["crates/oxvg_path/src/paths/segment/convert.rs","crates/oxvg_path/src/geometry/arc.rs","crates/oxvg_path/src/geometry/curve.rs"],[("segment::Path::to_svg and its shorthands","crates/oxvg_path/src/paths/segment/convert.rs"),("Arc::to_arc_to","crates/oxvg_path/src/geometry/arc.rs")],["path data"])

p("C32","Optimised path data draws the same outline",
"Optimising path data with any options yields path data that draws the same outline and encloses the same signed area, within the tolerance. Options that are unsafe for strokes keep the filled outline.",
["inputs","configurations"],"every path and every combination of the options that join, close, remove, straighten and round its pieces, under the default tolerance",
"Tests compare the text of sample paths with few combinations of options.",
["crates/oxvg_path/src/optimize.rs","crates/oxvg_path/src/paths/segment/simplify.rs","crates/oxvg_path/src/geometry/ellipses.rs","crates/oxvg_path/src/geometry/arc.rs"],[("Path::optimize","crates/oxvg_path/src/optimize.rs"),("segment::Path::simplify","crates/oxvg_path/src/paths/segment/simplify.rs"),("Ellipses::fit_curve","crates/oxvg_path/src/geometry/ellipses.rs")],["path data"])

p("C33","Clean-up jobs remove exactly what they name",
"A job that removes comments, descriptions, titles, metadata, scripts, styles, empty or named attributes and elements, editor data, unused namespaces, raster images, dimensions or empty containers removes exactly what it is configured to remove and leaves every other element, attribute, text and comment as it was. A job that adds, sorts or rewrites root attributes, classes or links changes nothing else.",
["inputs","configurations"],"every document and every configuration of one such job",
"Snapshot tests cover a handful of documents per job, mostly with default options.",
["crates/oxvg_optimiser/src/jobs","crates/oxvg_ast/src/visitor.rs"],[("the Visitor of each job","crates/oxvg_optimiser/src/jobs"),("Visitor traversal","crates/oxvg_ast/src/visitor.rs")],["serialised output"])
p("C34","Moving attributes between groups and their content draws the same",
"Collapsing groups, moving attributes or transforms between a group and what is in it, dropping what a group does not pass on and turning inline styles into attributes keep every shape with the styles it inherits, where it is, and under the same clips, masks, filters and opacity together with the same shapes. This also holds while an attribute is animated, and for what a reference to an id draws elsewhere.",
["inputs","histories"],"every document without style sheet and every order of these jobs",
"Snapshot tests pin the text of a few documents; that a moved attribute meets an inline style, an explicit inherit, an animation or a reference to an id was never drawn.",
["crates/oxvg_optimiser/src/jobs/collapse_groups.rs","crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs","crates/oxvg_optimiser/src/jobs/move_group_attrs_to_elems.rs","crates/oxvg_optimiser/src/jobs/remove_non_inheritable_group_attrs.rs","crates/oxvg_optimiser/src/jobs/convert_style_to_attrs.rs"],[("move_attributes_to_child, flatten_when_all_attributes_moved","crates/oxvg_optimiser/src/jobs/collapse_groups.rs"),("get_common_attributes","crates/oxvg_optimiser/src/jobs/move_elems_attrs_to_group.rs")],["serialised output"])
p("C35","Shapes written as other elements keep their outline",
"Turning rectangles, lines, polylines, polygons, circles and ellipses into paths, and ellipses into circles, keeps the outline of each shape within the configured precision, with all its other attributes and content. Shapes that are rounded, in relative units, named by a style sheet or not asked for stay as they are, and only shapes that draw nothing may be dropped.",
["inputs","configurations"],"every document of shapes and every configuration of these jobs",
"Snapshot tests have a few shapes with all attributes in pixels.",
["crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs","crates/oxvg_optimiser/src/jobs/convert_ellipse_to_circle.rs"],[("rect_to_path, line_to_path, poly_to_path, circle_to_path, ellipse_to_path","crates/oxvg_optimiser/src/jobs/convert_shape_to_path.rs"),("ConvertEllipseToCircle","crates/oxvg_optimiser/src/jobs/convert_ellipse_to_circle.rs")],["serialised output"])
p("C36","Rewritten transforms stand for the same map",
"Shortening the transform of an element, gradient or pattern leaves a list of transforms that stands for the same affine map, up to the configured precision, or drops it if the map is the identity. This holds for every list of transforms and every choice of which rewritings are made.",
["inputs","configurations"],"every list of transforms that is not singular and every configuration of the job",
"Snapshot tests compare texts for a few lists, mostly with default options.",
["crates/oxvg_optimiser/src/jobs/convert_transform.rs","crates/oxvg_collections/src/attribute/transform.rs"],[("ConvertTransform::transform, convert_to_shorts, remove_useless","crates/oxvg_optimiser/src/jobs/convert_transform.rs"),("SVGTransform::matrix_to_transform","crates/oxvg_collections/src/attribute/transform.rs")],["serialised output"])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__))), "properties.jsonl"), "w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
