"""What decides each property. `kind`: "proof" holds for every input, "bounded" up to the stated bound."""

TRUSTED = [
    "Kani's translation of Rust MIR and CBMC/CaDiCaL are correct",
    "rustc, LLVM and the standard library",
    "assertion failures and panics are the only way a contract fails; loops are unrolled up to a checked bound",
]


def proof(harness, functions, scope, **more):
    return {"harness": harness, "kind": "proof", "functions": functions, "bound": scope, **more}


def bounded(harness, functions, bound, **more):
    return {"harness": harness, "kind": "bounded", "functions": functions, "bound": bound, **more}


def native(contract, functions=(), **more):
    return {"contract": contract, "functions": list(functions), **more}


WINDOW = "any forest of any size: the nodes the call can reach and one more, with arbitrary links"

PLAN = {
    "C01": {
        "level": "proof",
        "technique": "Kani contracts on the real node functions, open-window link proofs",
        "note": (
            "Deductive proof, for forests of every size, that remove, append_child, append, prepend, insert_before, insert_after, before, "
            "after and replace_with change exactly the prescribed links (window of all reachable nodes plus an arbitrary one, arbitrary links, "
            "frame included) and lemmas that these edits keep links consistent. replace_child (child among the first two), insert at an index "
            "and remove_child are bounded; whole forests up to 5 nodes exhaustively and random histories up to 20 operations run natively. "
            "Assumes the windows' consistency precondition, nodes of one arena, and no cycles requested by the caller."
        ),
        "trusted": ["a call reaches only nodes named by its arguments and their neighbours (window size); reads beyond them would make an obligation fail"],
        "parts": [
            {
                "crate": "dom",
                "kani": [
                    proof("c01_lemma_detached", [], "all link tables"),
                    proof("c01_lemma_attached", [], "all link tables"),
                    proof("c01_open_replace_with", ["Element::replace_with"], WINDOW),
                    proof("c01_open_insert_before", ["Node::insert_before"], WINDOW),
                    proof("c01_open_insert_after", ["Node::insert_after"], WINDOW),
                    proof("c01_open_append_child", ["Node::append_child"], WINDOW),
                    proof("c01_open_append", ["Element::append"], WINDOW),
                    proof("c01_open_prepend", ["Element::prepend"], WINDOW),
                    proof("c01_open_remove", ["Node::remove"], WINDOW),
                    proof("c01_open_same", ["Node::insert_before", "Node::insert_after", "Element::after", "Element::before", "Element::replace_with"], "the node is its own reference"),
                    proof("c01_open_before", ["Element::before"], WINDOW, tier="thorough"),
                    proof("c01_open_after", ["Element::after"], WINDOW, tier="thorough"),
                    bounded("c01_open_replace_child", ["Node::replace_child"], "the replaced child is one of the first two", tier="thorough"),
                ],
                "native": [
                    native("c01_forest_step", ["Node::insert", "Node::replace_child", "Node::remove_child", "Node::remove_child_at"], seconds=12, random=1000),
                    native("c01_forest_steps", limit=1000, random=2_000_000, seconds=10),
                    native("c01_forest_large", limit=100, random=1_000_000, seconds=5),
                ],
            }
        ],
    },
    "C02": {
        "level": "other",
        "technique": "bounded Kani contracts and exhaustive native contracts on the real node functions",
        "note": (
            "Bounded: for node families with at most 3 children in every place, Kani discharges the exact-links contracts of empty, retain_children, "
            "flatten and replace_children; whole forests up to 5 nodes exhaustively and random histories up to 8 operations run natively, including "
            "sorting, renaming and text replacement. Loops over child lists are not proved for every length."
        ),
        "explanation": "exact postconditions on all links of all nodes, bounded in the number of children",
        "parts": [
            {
                "crate": "dom",
                "kani": [
                    proof("c01_lemma_detached", [], "all link tables"),
                    proof("c01_lemma_attached", [], "all link tables"),
                    bounded("c02_family_empty", ["Node::empty"], "at most 3 children"),
                    bounded("c02_family_retain", ["Node::retain_children"], "at most 3 children"),
                    bounded("c02_family_flatten", ["Element::flatten"], "at most 3 children"),
                    bounded("c02_family_replace_children", ["Element::replace_children"], "at most 3 children, at most 2 new ones", tier="thorough", timeout=900),
                ],
                "native": [
                    native(
                        "c02_forest_step",
                        ["Node::empty", "Node::set_text_content", "Node::retain_children", "Element::replace_children", "Element::flatten", "Element::sort_child_elements", "Element::set_local_name"],
                        seconds=12,
                        random=1000,
                    ),
                    native("c02_forest_steps", limit=1000, random=2_000_000, seconds=10),
                    native("c02_forest_large", limit=100, random=1_000_000, seconds=5),
                    native("c02_sort_many", ["Element::sort_child_elements"], limit=1000, random=100_000, seconds=10),
                ],
            }
        ],
    },
    "C03": {
        "level": "other",
        "technique": "bounded Kani contracts and exhaustive native contracts on the real node functions",
        "note": (
            "Bounded: for families of at most 3 children in every arrangement of front and back steps, Kani discharges the contracts of the child "
            "iterator, indexing, searching and counting; every query is compared with a sequence model on all trees up to 5 nodes exhaustively and on "
            "random trees up to 12 nodes. Not proved for every length; trees are acyclic and of one arena."
        ),
        "explanation": "exact answers of every query compared with the sequence model of the tree, bounded in the size of the tree",
        "parts": [
            {
                "crate": "dom",
                "kani": [
                    bounded("c03_family_interleaved", ["Node::child_nodes_iter", "ChildNodes::next", "ChildNodes::next_back"], "at most 3 children, 4 steps from either end"),
                    bounded("c03_family_queries", ["Node::child_nodes", "Node::child_node_count", "Node::child_index", "Node::item", "Node::contains"], "at most 3 children"),
                ],
                "native": [
                    native(
                        "c03_tree_queries",
                        ["Node::contains", "Node::item", "Node::child_index", "Element::children_iter", "Element::next_element_sibling", "Element::previous_element_sibling", "Element::closest", "Element::breadth_first"],
                        seconds=10,
                        random=1000,
                    ),
                    native("c03_tree_queries_random", limit=1000, random=2_000_000, seconds=10),
                    native("c03_interleaved", seconds=5, random=1000),
                    native("c03_tree_queries_large", limit=100, random=1_000_000, seconds=5),
                    native("c03_interleaved_large", limit=100, random=1_000_000, seconds=5),
                ],
            }
        ],
    },
    "C04": {
        "level": "other",
        "technique": "bounded Kani contract and exhaustive native contracts on the real allocator",
        "note": (
            "Bounded: Kani discharges that allocation gives consecutive ids that lead back to their nodes for three allocations; renumbering is compared "
            "with document order on all forests up to 5 nodes exhaustively and on random forests up to 30 nodes, as are allocators reopened on a used arena. "
            "Debug assertions of the crate under test are off, as in release builds."
        ),
        "explanation": "ids, lookup and enumeration compared with document order after every allocation and renumbering, bounded in the number of nodes",
        "parts": [
            {
                "crate": "dom",
                "kani": [bounded("c04_family_alloc", ["Allocator::alloc", "Allocator::get"], "three allocations")],
                "native": [
                    native("c04_reorder_small", ["Allocator::reorder", "Allocator::iter", "Allocator::get"], seconds=10, random=1000),
                    native("c04_reorder_random", limit=1000, random=1_000_000, seconds=10),
                    native("c04_reopened", ["Allocator::new"], seconds=5, random=1000),
                    native("c04_strings", ["Allocator::alloc_str"], seconds=5, random=100),
                ],
            }
        ],
    },
    "C05": {
        "level": "other",
        "technique": "pre/postcondition contracts on the real attribute collection, exhaustive for short histories and random for long ones",
        "note": (
            "Bounded: every history of at most 3 set/remove/replace/retain operations over 4 names, and random ones up to 13 over 20 names (known, aliased, prefixed, unknown), "
            "run on the real collection; after every call the whole list and the answer of every lookup are compared with an ordered map. No part is proved: symbolic lists of attribute values exceed the verifier."
        ),
        "explanation": "postconditions against an ordered map after every operation, exhaustive up to a stated history length",
        "parts": [
            {
                "crate": "dom",
                "kani": [],
                "native": [
                    native("c05_short_histories", ["Attributes::set_named_item", "Attributes::remove_named_item", "Attributes::get_named_item", "Attributes::get_named_item_local", "Attributes::get_named_item_ns", "Attributes::item", "Attributes::retain", "Attributes::len", "Attributes::iter"], seconds=15, random=1000),
                    native("c05_histories", limit=500, random=1_000_000, seconds=15),
                    native("c05_replaced", ["Attributes::replace", "Element::set_attributes"], limit=500, random=1_000_000, seconds=8),
                    native("c05_sorted", ["Attributes::sort"], limit=500, random=1_000_000, seconds=6),
                    native("c05_sorted_many", limit=100, random=1_000_000, seconds=5),
                    native("c05_many", limit=100, random=1_000_000, seconds=5),
                ],
            }
        ],
    },
    "C06": {
        "level": "other",
        "technique": "pre/postcondition contracts on the real class list, exhaustive for short histories and random for long ones",
        "note": (
            "Bounded: every history of at most 2 operations and random ones up to 11, from token lists without duplicates, with edits of other attributes between two uses of one view; "
            "tokens, answers and all other attributes are compared with an ordered set after every call. No part is proved."
        ),
        "explanation": "postconditions against an ordered token set after every operation, exhaustive up to a stated history length",
        "parts": [
            {
                "crate": "dom",
                "kani": [],
                "native": [
                    native("c06_short_histories", ["ClassList::add", "ClassList::remove", "ClassList::replace", "ClassList::toggle", "ClassList::contains", "ClassList::retain", "ClassList::iter", "ClassList::length"], seconds=20, random=1000),
                    native("c06_histories", limit=500, random=3_000_000, seconds=15),
                    native("c06_repeated", limit=100000, random=1_000_000, seconds=8),
                    native("c06_many", limit=100, random=1_000_000, seconds=5),
                ],
            }
        ],
    },
    "C07": {
        "level": "other",
        "technique": "Kani contracts on the real writer, bounded in text length, and exhaustive native contracts",
        "note": (
            "Bounded: Kani discharges, for every text of at most 3 and every attribute value of at most 4 ASCII characters and both quotes, that no markup character is left bare and the output decodes "
            "to the input. Native: all values of at most 4 of 9 characters in 5 places, random values in up to 3 pieces with a sink that takes few bytes at once. Style sheets are not escaped (known finding)."
        ),
        "known_findings": ["a style sheet with a less-than or an ampersand is written bare: <style>@media (width<=200px){a{fill:red}}</style> is not well-formed"],
        "explanation": "decoding the output yields the input, for every short text",
        "parts": [
            {
                "crate": "dom",
                "kani": [
                    bounded("c07_bytes_text", ["XmlWriter::write_text", "FmtWriter::write_str", "FmtWriter::write_escaped"], "texts of at most 3 ASCII characters"),
                    bounded("c07_bytes_attribute", ["XmlWriter::write_attribute_raw", "FmtWriter::write_str", "FmtWriter::write_escaped"], "values of at most 4 ASCII characters"),
                ],
                "native": [
                    native("c07_short", ["XmlWriter::write_text", "XmlWriter::write_text_fmt", "XmlWriter::write_attribute", "XmlWriter::write_attribute_fmt", "XmlWriter::write_attribute_raw"], seconds=5, random=1000),
                    native("c07_pieces", limit=500, random=3_000_000, seconds=10),
                    native("c07_long", limit=100, random=1_000_000, seconds=5),
                    native("c07_bytes_text", limit=500, random=10_000, seconds=3),
                    native("c07_bytes_attribute", limit=500, random=10_000, seconds=3),
                ],
            }
        ],
    },
    "C08": {
        "level": "other",
        "technique": "contract on the real writer for call sequences: strict reader as postcondition, exhaustive for short sequences",
        "note": (
            "Bounded: every sequence of at most 4 calls and random ones up to 17 with all writer options; illegal calls must be refused, the finished document is read by a strict reader and by roxmltree and must have "
            "the structure of the calls. Comment text without two hyphens. No part is proved: two symbolic calls already exceed the verifier."
        ),
        "explanation": "structure read back against the calls, exhaustive up to a stated number of calls",
        "parts": [
            {
                "crate": "dom",
                "kani": [],
                "native": [
                    native("c08_short_sequences", ["XmlWriter::start_element", "XmlWriter::end_element", "XmlWriter::end_document", "XmlWriter::write_comment", "XmlWriter::write_cdata_text", "XmlWriter::write_declaration"], seconds=15, random=1000),
                    native("c08_sequences", ["XmlWriter::write_attribute_fmt", "XmlWriter::write_text", "XmlWriter::write_text_fmt"], limit=500, random=5_000_000, seconds=20),
                    native("c08_long_sequences", limit=100, random=1_000_000, seconds=5),
                ],
            }
        ],
    },
    "C09": {
        "level": "other",
        "technique": "postcondition contracts on the real writer and serialiser for each white-space mode, exhaustive for short texts",
        "note": (
            "Bounded: every text of at most 5 of 7 characters (space, newline, tab, letter, less-than, no-break space, accented letter) in each mode and position; random text elements nested two deep with "
            "xml:space attributes, compared with what the modes prescribe; the same with indentation, where spaces next to markup may be dropped. No part is proved."
        ),
        "explanation": "written text against what the mode prescribes, exhaustive up to a stated length",
        "parts": [
            {
                "crate": "dom",
                "kani": [],
                "native": [
                    native("c09_one_text", ["XmlWriter::write_text"], seconds=8, random=10_000),
                    native("c09_documents", ["serialize_node", "XmlWriter::write_attribute", "XmlWriter::end_element"], limit=500, random=5_000_000, seconds=15),
                    native("c09_indented", ["XmlWriter::write_node_indent", "XmlWriter::write_indent"], limit=500, random=5_000_000, seconds=10),
                ],
            }
        ],
    },
    "C10": {
        "level": "other",
        "technique": "postcondition contract on the real parser and serialiser: the document read back equals the source",
        "note": (
            "Bounded: random source documents (up to 4 levels, namespace declarations and redeclarations, typed and plain attributes, text, CDATA, comments, instructions, style sheets), read by the real parser, "
            "written, and read back; oracle: expanded names, plain attribute values, text and order as roxmltree reports them for source and output, link consistency of the tree, and stable text on the second round. "
            "Values without line breaks or tabs; style sheets without markup characters (known finding). No part is proved."
        ),
        "known_findings": ["a style sheet with a less-than or an ampersand is written bare: <style>@media (width<=200px){a{fill:red}}</style> cannot be read back"],
        "trusted": ["roxmltree reads XML correctly"],
        "explanation": "document read back against the source, random documents",
        "parts": [
            {
                "crate": "dom",
                "kani": [],
                "native": [
                    native("c10_small", ["parse_tree_with_allocator", "parse_xml_node_children", "attach_child", "parse_element", "parse_attr", "find_new_xmlns", "parse_style", "serialize_node"], limit=500, random=3_000_000, seconds=15),
                    native("c10_documents", limit=500, random=3_000_000, seconds=20),
                ],
            }
        ],
    },
    "C11": {
        "level": "other",
        "technique": "Kani contracts on the real parser primitives, bounded in text length, and exhaustive native contracts",
        "note": (
            "Proved by Kani for every character: which characters start and continue a name. Bounded: read, advance, skipping, taking and the expectations "
            "for every text of at most 2 characters of any kind at every position, inside and outside a trial. Native: all texts of at most 3 characters of "
            "10 kinds for each primitive, random histories, every character as a name character. Where a failed expectation outside a trial stops is "
            "not prescribed beyond staying on a character."
        ),
        "explanation": "exact position and result of every primitive against the sequence model of the text, bounded in text length",
        "parts": [
            {
                "crate": "parse",
                "kani": [
                    proof("c11_name_chars", ["Parser::expect_ident", "is_name_start_char", "is_name_char"], "every character"),
                    bounded("c11_read", ["Parser::read", "Parser::current"], "texts of at most 2 characters"),
                    bounded("c11_advance", ["Parser::advance"], "texts of at most 2 characters"),
                    bounded("c11_skip_char", ["Parser::skip_char"], "texts of at most 2 characters"),
                    bounded("c11_take_matches", ["Parser::take_matches", "Parser::skip_matches"], "texts of at most 2 characters"),
                    bounded("c11_expect_char", ["Parser::expect_char", "Parser::try_parse"], "texts of at most 2 characters"),
                    bounded("c11_expect_str", ["Parser::expect_str"], "texts of at most 2 characters"),
                    bounded("c11_expect_matches", ["Parser::expect_matches"], "texts of at most 2 characters", tier="thorough"),
                    bounded("c11_expect_ident", ["Parser::expect_ident"], "texts of at most 2 characters", tier="thorough"),
                ],
                "native": [
                    native(
                        "c11_primitives",
                        ["Parser::rewind", "Parser::done", "Parser::take_slice", "Parser::skip_whitespace", "Parser::expect_done", "Parser::expect_whitespace", "Parser::expect_ident_matching", "Parser::slice_from", "Parser::len"],
                        limit=10_000_000,
                        seconds=15,
                        random=200_000,
                    ),
                    native("c11_histories", limit=1000, random=5_000_000, seconds=8),
                    native("c11_trials", ["Parser::try_parse"], limit=1000, random=5_000_000, seconds=8),
                    native("c11_all_name_chars", seconds=10, random=0),
                ],
            }
        ],
    },
    "C12": {
        "level": "other",
        "technique": "Kani contracts on the real number readers, bounded in text length, and exhaustive native contracts",
        "note": (
            "Bounded: for every text of at most 3 characters of the number alphabet Kani discharges that exactly the number is consumed and everything else is "
            "an error (the standard library's decimal conversion is replaced by its assumed contract: it succeeds exactly on numbers), and the exact value of "
            "integers. Native: all texts of at most 5 of 13 characters with values bit for bit, random texts up to 14 characters, the ends of every range. "
            "The value of a decimal text is the standard library's."
        ),
        "explanation": "consumed prefix and value against an independent grammar, bounded in text length",
        "trusted": ["the standard library's str::parse::<f64> succeeds exactly on numbers (assumed in the symbolic layer) and gives the nearest value"],
        "parts": [
            {
                "crate": "parse",
                "kani": [
                    bounded("c12_consumed_3", ["f64::parse"], "texts of at most 3 of 7 characters"),
                    bounded("c12_consumed_4", ["f64::parse"], "texts of at most 4 of 7 characters", tier="thorough"),
                    bounded("c12_integers", ["i64::parse"], "texts of at most 3 of 6 characters"),
                ],
                "native": [
                    native("c12_short", ["f64::parse", "f32::parse", "i64::parse", "i32::parse", "Parse::parse_string"], seconds=10, random=1000),
                    native("c12_long", limit=1000, random=5_000_000, seconds=8),
                    native("c12_edges", seconds=5, random=1000),
                ],
            }
        ],
    },
    "C13": {
        "level": "other",
        "technique": "exhaustive and random native contracts on the real list reader and printer (bounded stand-in for deductive contracts)",
        "note": (
            "Bounded, not proved: the reader of each of the four kinds of list is compared with an independent grammar on all texts of at most 6 of 7 characters, on "
            "every separator between two items and on random longer texts; printing and reading again is run on all lists of at most 3 items of several kinds. "
            "Reading text through the list is out of Kani's reach (no answer in 280 s for two items)."
        ),
        "explanation": "accepted texts and their items compared with an independent grammar, and round trips, bounded in length",
        "parts": [
            {
                "crate": "coll",
                "native": [
                    native("c13_texts", ["ListOf::parse", "Space::parse", "Comma::parse", "SpaceOrComma::parse", "Semicolon::parse"], seconds=10, random=1000),
                    native("c13_long_texts", limit=1000, random=5_000_000, seconds=8),
                    native("c13_many", limit=100, random=1_000_000, seconds=5),
                    native("c13_round_trip", ["ListOf::write_value"], seconds=10, random=1000),
                    native("c13_round_trip_values", limit=2_000_000, seconds=15, random=10_000),
                    native("c13_quoted", seconds=5, random=1000),
                ]
                + [native(f"c13_{what}_{kind}", limit=200_000, random=100_000, seconds=3) for what in ("digits", "between") for kind in ("space", "comma", "space_or_comma", "semicolon")],
            }
        ],
    },
    "C14": {
        "level": "other",
        "technique": "Kani contracts on one step of the real conversion from any state, and exhaustive native contracts on whole paths",
        "note": (
            "Proved for all finite doubles and any state: one step of the conversion for moves, lines and closing. Bounded: one step for cubic, quadratic "
            "and smooth curves with whole coordinates from -128 to 127. Whole paths (the loop over commands, closedness, arcs) are run natively: every choice of "
            "three commands after a move with three sets of coordinates, and random paths of at most 7 commands with arbitrary finite numbers, against an "
            "independent reading of the SVG rules. Of arcs only the end point is decided. A sub-path without drawing commands may be left out."
        ),
        "explanation": "segments compared with an independent model of the SVG path rules; proof per step, bounded in the number of commands",
        "back_end": "Kani 0.68, CBMC 6.11, CaDiCaL; z3 with IEEE floating-point theory for moves and lines",
        "trusted": ["the ellipse of an arc is not compared, only its end point", "the step is reached through a hook compiled only under cfg(kani) that calls the real function"],
        "parts": [
            {
                "crate": "path",
                "cbmc": ["--fpa"],
                "kani": [
                    proof("c14_step_moves", ["segment::Data::take"], "any state, all finite doubles", timeout=200),
                    proof("c14_step_straight", ["segment::Data::take"], "any state, all finite doubles", timeout=200),
                    proof("c14_step_lines", ["segment::Data::take"], "any state, all finite doubles", timeout=200),
                    bounded("c14_step_c", ["segment::Data::take"], "any state, whole coordinates from -128 to 127", timeout=200),
                    bounded("c14_step_s", ["segment::Data::take"], "any state, whole coordinates from -128 to 127", timeout=200),
                    bounded("c14_step_q", ["segment::Data::take"], "any state, whole coordinates from -128 to 127", timeout=200),
                    bounded("c14_step_t", ["segment::Data::take"], "any state, whole coordinates from -128 to 127", timeout=200),
                ],
                "native": [
                    native("c14_pairs", ["segment::Path::from_svg", "Segment::take", "segment::Data::take"], seconds=10, random=1000),
                    native("c14_paths", limit=1000, random=3_000_000, seconds=15),
                    native("c14_long_paths", limit=100, random=1_000_000, seconds=5),
                    native("c14_one_line", limit=1000, random=1_000_000, seconds=5),
                    native("c14_cubic_pair", limit=1000, random=1_000_000, seconds=5),
                    native("c14_empty", seconds=1, random=0),
                ],
            }
        ],
    },
    "C15": {
        "level": "other",
        "technique": "exhaustive and random native contracts on the real printer and parser (bounded stand-in for deductive contracts)",
        "note": (
            "Bounded, not proved: printing and parsing is run for any two of 36 numbers of every written form in every pair of neighbouring places of every "
            "command, explicit and implicit, and for random paths of at most 6 commands with arbitrary finite numbers. The decimal printer (ryu) is out of "
            "Kani's reach. Paths start with an explicit move, a command is marked implicit only where it may be, and 0 equals -0."
        ),
        "explanation": "round trip through text compared command by command, bounded in the number of commands",
        "parts": [
            {
                "crate": "path",
                "native": [
                    native("c15_neighbours", ["Path::fmt", "Args::fmt", "Args::is_space_needed", "short_number_from_buffer", "Path::parse"], seconds=20, random=100_000),
                    native("c15_paths", limit=1000, random=5_000_000, seconds=15),
                    native("c15_long_paths", limit=100, random=1_000_000, seconds=5),
                    native("c15_single", seconds=5, random=1000),
                ],
            }
        ],
    },
    "C16": {
        "level": "other",
        "technique": "exhaustive and random native contracts on the real parser (bounded stand-in for deductive contracts)",
        "note": (
            "Bounded, not proved: the parser is compared with an independent grammar on all texts of at most 5 of 14 characters, on all endings of at most 4 "
            "characters after 9 beginnings, and on random longer texts, with a watchdog for calls that do not return. The grammar is SVG's, relaxed in that "
            "commas and white space may be mixed freely after an argument."
        ),
        "explanation": "accepted texts and their commands compared with an independent grammar, bounded in text length",
        "parts": [
            {
                "crate": "path",
                "native": [
                    native("c16_short_texts", ["Path::parse"], seconds=10, random=1000),
                    native("c16_endings", ["Path::parse"], seconds=10, random=1000),
                    native("c16_one_more", seconds=2, random=100),
                    native("c16_long_texts", limit=1000, random=10_000_000, seconds=12),
                    native("c16_respaced", limit=1000, random=2_000_000, seconds=8),
                ],
            }
        ],
    },
    "C17": {
        "level": "proof",
        "technique": "Kani contracts on the real command table functions",
        "note": (
            "Deductive proof for every kind of command, explicit and implicit, and arguments of any bit pattern: letters, argument counts, absolute and "
            "relative, follow-ups, explicit form, construction, reading and writing of arguments, and that rounding replaces exactly the arguments it should "
            "(the rounding of one number is replaced by an uninterpreted stand-in; C18 decides it). Rounding a whole path, and every character as a letter, "
            "run natively. Nested implicit marks are not considered; rounding keeps the end point of an arc."
        ),
        "trusted": ["in c17_round the rounding of one number is a stand-in that changes every value"],
        "parts": [
            {
                "crate": "path",
                "kani": [
                    proof("c17_kinds", ["ID::args", "ID::is_implicit", "ID::is_none", "ID::as_explicit", "ID::next_implicit", "char::from(&ID)", "ID::try_from"], "every kind, explicit and implicit"),
                    proof("c17_letters", ["ID::try_from"], "every character"),
                    proof("c17_classification", ["Data::id", "Data::is_implicit", "Data::as_explicit", "Data::as_explicit_mut", "Data::is_to", "Data::is_by", "Data::args", "Data::args_mut"], "every kind, every argument"),
                    proof("c17_construction", ["Data::from"], "every kind, every argument"),
                    proof("c17_set_arg", ["Data::set_arg"], "every kind, every argument"),
                    proof("c17_round", ["Data::round"], "every kind, every argument"),
                ],
                "native": [
                    native("c17_kinds", seconds=2, random=0),
                    native("c17_all_letters", seconds=2, random=1),
                    native("c17_classification", limit=100_000, random=200_000, seconds=5),
                    native("c17_construction", limit=100_000, random=200_000, seconds=5),
                    native("c17_set_arg", limit=100_000, random=200_000, seconds=5),
                    native("c17_round", limit=100_000, random=500_000, seconds=5),
                    native("c17_round_path", ["Path::round"], limit=100_000, random=500_000, seconds=5),
                ],
            }
        ],
    },
    "C18": {
        "level": "other",
        "technique": "Kani contracts on the real geometry functions (z3 floating-point theory and CaDiCaL), and native contracts",
        "note": (
            "Proved for all finite doubles: sums, differences, negation, multiples, fractions, reflection, minimum and maximum, left and right, quadrant, "
            "conversions, rectangle corners, size, containment, overlap, intersection and clamping. Not proved, run natively on edge values and random numbers: scalar and "
            "vector products, lengths, distances, middle, interpolation, angles and rounding to decimal places (their sums of products may be associated "
            "differently within 1e-12)."
        ),
        "explanation": "defining formulas of points and rectangles; proof for the exact ones, native runs for the rounded ones",
        "back_end": "Kani 0.68, CBMC 6.11, CaDiCaL; z3 with IEEE floating-point theory for sums and products",
        "parts": [
            {
                "crate": "path",
                "cbmc": ["--fpa"],
                "kani": [
                    proof("c18_making", ["Point::new", "Point::splat", "Point::with_x", "Point::with_y", "Point::from", "Point::is_nan", "Point::is_finite", "Point::map"], "all doubles"),
                    proof("c18_sums", ["Point::add", "Point::sub", "Point::neg", "Point::add_assign", "Point::sub_assign"], "all finite doubles", timeout=150),
                    proof("c18_choices", ["Point::min", "Point::max", "Point::leftmost", "Point::rightmost", "Point::quadrant"], "all finite doubles", timeout=150),
                    proof("c18_reflection", ["Point::reflect"], "all finite doubles", timeout=150),
                    proof("c18_multiples", ["Point::mul", "Point::div", "Point::mul_assign", "Point::div_assign", "Point::product"], "all finite doubles, not divided by 0", timeout=150),
                    proof("c18_rectangles", ["Rectangle::new", "Rectangle::min", "Rectangle::max", "Rectangle::contains", "Rectangle::intersects", "Rectangle::intersection", "Rectangle::clamp"], "all finite doubles", timeout=150),
                    proof("c18_sizes", ["Rectangle::width", "Rectangle::height"], "all finite doubles", timeout=150),
                    proof("c18_rounding_whole", ["TolerancePrecision::round"], "all finite doubles, no decimal places", timeout=150),
                ],
                "native": [
                    native("c18_" + n, fs, limit=100_000, random=500_000, seconds=5)
                    for n, fs in {
                        "making": [],
                        "sums": [],
                        "choices": [],
                        "reflection": [],
                        "multiples": [],
                        "products": ["Point::dot", "Point::dot_into", "Point::len", "Point::len_squared", "Point::distance", "Point::distance_squared", "Point::cross", "Point::midpoint", "Point::lerp", "Point::orth", "Point::is_parallel", "Point::is_continuous_parallel"],
                        "angles": ["Point::angle", "Point::angle_radians", "Point::rotate"],
                        "rounding": ["TolerancePrecision::round", "TolerancePrecision::scale", "TolerancePrecision::descale", "Tolerance::precision", "Tolerance::square"],
                        "rectangles": [],
                        "sizes": [],
                        "bounding": ["Rectangle::from_points", "Rectangle::from_coords"],
                    }.items()
                ],
            }
        ],
    },
    "C19": {
        "level": "other",
        "technique": "Kani contracts on the real conversions, and exhaustive and random native contracts comparing the maps",
        "note": (
            "Proved for every bit pattern of the arguments: the conversions between the two kinds of transform function carry the arguments over unchanged. "
            "Native, not proved: the map of each function and of random lists against matrices computed in double precision, recognition of a matrix as simpler functions, "
            "rounding, printing and reading again, lists of up to 5000 functions. Compared within the tolerance of single precision; matrices with an area between 0 and 0.01 are left out."
        ),
        "explanation": "maps of the plane compared on points; proof for the conversions of arguments, native runs for matrices",
        "trusted": ["the products of matrices and the CSS reader of lightningcss are used as they are"],
        "parts": [
            {
                "crate": "coll",
                "kani": [
                    proof("c19_css_arguments", ["SVGTransform::try_from(Transform)"], "every function, every bit pattern of its arguments"),
                    proof("c19_svg_arguments", ["Transform::from(SVGTransform)"], "every function, every bit pattern of its arguments"),
                ],
                "native": [
                    native("c19_single", ["SVGTransform::to_matrix", "SVGTransformList::to_matrix_2d"], seconds=10, random=100_000),
                    native("c19_list", ["SVGTransformList::to_matrix_2d"], limit=1000, random=1_000_000, seconds=8),
                    native("c19_from_css", seconds=8, random=100_000),
                    native("c19_recognise", ["SVGTransformList::matrix_to_transform"], limit=1000, random=1_000_000, seconds=10),
                    native("c19_round_trip", ["SVGTransformList::write_value", "SVGTransformList::parse"], limit=1000, random=1_000_000, seconds=8),
                    native("c19_read", ["SVGTransformList::parse"], limit=1000, random=1_000_000, seconds=8),
                    native("c19_many", limit=10, random=20, seconds=5),
                    native("c19_rounding", ["SVGTransform::round"], seconds=8, random=100_000),
                    native("c19_css_arguments", limit=1000, random=100_000, seconds=3),
                    native("c19_svg_arguments", limit=1000, random=100_000, seconds=3),
                ],
            }
        ],
    },
    "C20": {
        "level": "other",
        "technique": "Kani contracts on the real prefixes and namespaces, bounded in text length, and exhaustive native contracts",
        "note": (
            "Bounded: for every alias of at most 6 ASCII characters and each known namespace and one unknown, Kani discharges that namespace and alias read back; equality and hashing of "
            "unknown namespaces of at most 2 characters. Native: all pairs of 10 namespaces with 9 aliases, all pairs of known attributes with aliases, random pairs of "
            "names: equality is that of namespace and local name, and equal names hash alike. An empty alias of no namespace is SVG, as documented."
        ),
        "explanation": "namespace and alias read back, equality and hash against the pair of namespace and local name, bounded in text length",
        "parts": [
            {
                "crate": "coll",
                "kani": [bounded("c20_equality", ["NS::eq", "NS::hash", "Prefix::eq", "Prefix::hash"], "unknown namespaces of at most 2 characters")]
                + [
                    bounded("c20_aliases_" + n, ["Prefix::new", "Prefix::ns", "Prefix::value"], "aliases of at most 6 ASCII characters")
                    for n in ("svg", "html", "xml", "xmlns", "xlink", "mathml", "other")
                ],
                "native": [
                    native("c20_construction", ["Prefix::new", "Prefix::ns", "Prefix::value"], seconds=5, random=1000),
                    native("c20_pairs", ["Prefix::eq", "Prefix::hash", "NS::eq", "NS::hash", "QualName::eq", "QualName::hash"], seconds=10, random=1000),
                    native("c20_names", ["ElementId::eq", "ElementId::hash", "AttrId::eq", "AttrId::hash"], limit=1000, random=1_000_000, seconds=8),
                    native("c20_attribute_pairs", ["AttrId::eq", "AttrId::hash"], seconds=15, random=1000),
                    native("c20_atoms", ["Atom::eq", "Atom::hash", "Atom::cmp"], seconds=3, random=1000),
                    native("c20_aliases", limit=1000, random=1_000_000, seconds=5),
                    native("c20_equality", limit=100_000, random=100_000, seconds=3),
                ],
            }
        ],
    },
    "C21": {
        "level": "other",
        "technique": "Kani contract on the real name table, bounded in name length, and exhaustive native contracts",
        "note": (
            "Bounded: for every name of at most 3 ASCII characters Kani discharges that exactly the known ones become known elements. Native: all 84 elements, all 465 attributes on every "
            "element with their usual and an unusual prefix, and names one edit away from a known one."
        ),
        "explanation": "id tables compared with an independent table of names, exhaustive over the known names",
        "parts": [
            {
                "crate": "coll",
                "kani": [bounded("c21_short_names", ["ElementId::new", "ElementId::local_name", "ElementId::prefix"], "names of at most 3 ASCII characters")],
                "native": [
                    native("c21_elements", ["ElementId::new", "ElementId::local_name", "ElementId::prefix"], seconds=10, random=10_000),
                    native("c21_known", ["AttrId::new"], seconds=5, random=100),
                    native("c21_attributes", ["ElementId::parse_attr_id", "AttrId::local_name", "AttrId::prefix"], seconds=15, random=10_000),
                    native("c21_nearby_attributes", limit=1000, random=500_000, seconds=8),
                    native("c21_short_names", limit=1000, random=100_000, seconds=3),
                ],
            }
        ],
    },
    "C22": {
        "level": "other",
        "technique": "postcondition contracts on the real id minifier, exhaustive up to three letters for the generator",
        "note": (
            "Bounded: documents with up to 2899 ids, which takes the generator through all ids of one and two letters and into three, and random documents with preserved and dangling ids of one and two letters. "
            "Oracle: ids as numbers in bijective base 52. The generator does not depend on the document except for the ids it must skip. No part is proved: the verifier runs out of memory on the generator's text handling."
        ),
        "explanation": "generated ids are letters, pairwise different, none taken, none of the shorter ones left out",
        "parts": [
            {
                "crate": "opt",
                "kani": [],
                "native": [
                    native("c22_counts", ["GeneratedId::next", "CleanupIds"], limit=80, random=300, seconds=20),
                    native("c22_preserved", ["GeneratedId::set_prevent_collision", "GeneratedId::insert_prevent_collision"], limit=500, random=1_000_000, seconds=15),
                ],
            }
        ],
    },
    "C23": {
        "level": "other",
        "technique": "postcondition contracts on the real id jobs, on random documents and options",
        "note": (
            "Bounded: random documents of at most 9 elements and 8 references (url(), href, xlink:href, begin and end of animations, aria lists) under every combination of remove, minify, preserved ids and prefixes, and prefixing. "
            "Oracle: the element each reference resolves to, by position, before and after. No style sheets or scripts; for prefixing, no id that starts with the prefix already. No part is proved."
        ),
        "explanation": "resolution of references before and after, random documents",
        "parts": [
            {
                "crate": "opt",
                "kani": [],
                "native": [
                    native("c23_cleanup", ["CleanupIds", "State::element", "State::prepare_id_rename", "rename_references"], limit=500, random=2_000_000, seconds=20),
                    native("c23_cleanup_many", limit=100, random=1_000_000, seconds=5),
                    native("c23_prefix", ["PrefixIds"], limit=500, random=2_000_000, seconds=15),
                    native("c23_prefix_many", limit=100, random=1_000_000, seconds=5),
                ],
            }
        ],
    },
    "C24": {
        "level": "other",
        "technique": "Kani contract on the real line and column computation, bounded in text length, and native contracts",
        "note": (
            "Bounded: for every text of at most 16 bytes and every position Kani discharges that line and column are those counted from the start. Native: all texts of at most 9 bytes that are newlines or not, random texts up to 4000 bytes; "
            "ranges recorded for elements and attributes in random documents against the positions where they were put."
        ),
        "explanation": "line and column against counting from the start, bounded in text length; recorded ranges in random documents",
        "trusted": ["roxmltree reports the ranges of its nodes; they are compared with the positions in the source"],
        "parts": [
            {
                "crate": "pos",
                "kani": [bounded("c24_lines", ["Ranges::to_line_and_col"], "texts of at most 16 bytes")],
                "native": [
                    native("c24_lines", limit=1000, random=500_000, seconds=4),
                    native("c24_small", seconds=3, random=1000),
                    native("c24_long", limit=1000, random=500_000, seconds=8),
                    native("c24_ranges", ["parse_element", "Element::range", "Element::attribute_ranges"], limit=1000, random=1_000_000, seconds=10),
                ],
            }
        ],
    },
    "C27": {
        "level": "other",
        "technique": "postcondition contracts on the real style computation, on random documents",
        "note": (
            "Bounded: random documents of at most 8 elements with at most 5 style rules; three properties (two inherited, one not) with presentation attributes, style attributes, important declarations, selector lists and conditional rules. "
            "Oracle: the cascade written out from the CSS text, with its own selector matching. No part is proved: the declarations live in the CSS library's structures, which the verifier can't run symbolically."
        ),
        "explanation": "computed values against a cascade written from the CSS text, random documents",
        "trusted": ["lightningcss reads and prints the style declarations", "the selectors crate computes specificity"],
        "parts": [
            {
                "crate": "dom",
                "kani": [],
                "native": [
                    native("c27_small", ["ComputedStyles::with_style", "ComputedStyles::with_nested_style", "ComputedStyles::with_attribute", "ComputedStyles::with_inline_style", "ComputedStyles::get", "style::root"], limit=500, random=2_000_000, seconds=12),
                    native("c27_documents", ["ComputedStyles::with_all", "ComputedStyles::with_inherited", "ComputedStyles::get_inherited"], limit=500, random=2_000_000, seconds=15),
                ],
            }
        ],
    },
    "C28": {
        "level": "other",
        "technique": "postcondition contracts on the real selector matching, on random documents and selectors",
        "note": (
            "Bounded: random documents of at most 14 elements, selector lists of at most 2 selectors of 3 compounds. "
            "Oracle: a direct definition of each selector on the list of elements. No namespaced attributes. No part is proved: the matching loop is in the selectors crate; its callbacks, which are in this repository, are run through it."
        ),
        "explanation": "selected elements against a direct definition of each selector, random documents and selectors",
        "trusted": ["the selectors crate parses selectors and drives the matching"],
        "parts": [
            {
                "crate": "dom",
                "kani": [],
                "native": [
                    native("c28_simples", ["Selector::new", "Selector::matches_naive", "SelectElement (selectors::Element)"], limit=500, random=2_000_000, seconds=12),
                    native("c28_lists", ["Element::select", "Select::next", "Selector::matches_with_scope_and_cache"], limit=500, random=2_000_000, seconds=15),
                ],
            }
        ],
    },
    "C31": {
        "level": "other",
        "technique": "postcondition contracts on the real writing of segments, on random geometry",
        "note": (
            "Bounded: random geometry of at most 3 sub-paths of 4 pieces, with coordinates on grids where rounding ties and shorthands occur, and arcs of all flags. "
            "Oracle: points sampled along each piece of the written commands, read by an independent model of the SVG path rules and of elliptical arcs, "
            "against the same points of the given pieces. Only whole conversions are decided; of the functions beneath them none is proved."
        ),
        "explanation": "24 points along every piece compared before and after writing, random geometry",
        "trusted": ["rounding moves a point by no more than the rounding of its command's numbers; for arcs by what rounding the radii can move it"],
        "parts": [
            {
                "crate": "path",
                "kani": [],
                "native": [
                    native("c31_pieces", ["segment::Path::to_svg", "segment::Path::to_svg_line", "segment::Path::to_svg_curve", "Curve::smooth_bezier", "Curve::quadratic_bezier"], limit=2000, random=3_000_000, seconds=10),
                    native("c31_segments", ["segment::Path::to_svg", "IterStartCursor"], limit=1000, random=3_000_000, seconds=12),
                    native("c31_again", ["segment::Path::from_svg", "segment::Path::to_svg_arc", "Arc::to_arc_to", "Arc::from_arc_to"], limit=1000, random=3_000_000, seconds=12),
                ],
            }
        ],
    },
    "C32": {
        "level": "other",
        "technique": "postcondition contracts on the real path optimisation, on random paths and options",
        "note": (
            "Bounded: random paths of at most 2 sub-paths of 4 pieces (lines, split and straight curves, circles of curves, arcs, smooth curves) with random options. "
            "Oracle: distance between the outlines sampled from both path data by an independent model of the SVG path rules, and their signed areas. "
            "The slack is the tolerance of the optimiser: rounding, one thousandth of the radius for fitted arcs, a tenth where arcs are joined. "
            "Boolean operations on paths are not covered, and nothing is proved."
        ),
        "explanation": "distance of sampled outlines and signed areas before and after optimising, random paths and options",
        "trusted": ["the sampled outline (24 points per piece) stands for the outline"],
        "parts": [
            {
                "crate": "path",
                "kani": [],
                "native": [
                    native("c32_small", ["Path::optimize", "segment::Path::simplify", "Curve::is_straight", "Ellipses::fit_curve"], limit=1000, random=3_000_000, seconds=15),
                    native("c32_paths", ["segment::Path::simplify", "Arc::is_connected", "Arc::fit_curve", "Point::is_continuous_parallel"], limit=1000, random=3_000_000, seconds=25),
                ],
            }
        ],
    },
    "C33": {
        "level": "other",
        "technique": "postcondition contracts on the real jobs, on random documents and configurations",
        "note": (
            "Bounded: random documents of at most 13 elements with attributes, comments, instructions and text, and 23 jobs with random options, one at a time. "
            "Oracle: the tree read from the document before, changed by a direct definition of what the job names, against the tree read from the result. "
            "Attributes are compared without their order, the children of definitions likewise where they are sorted. No part is proved: jobs walk whole documents."
        ),
        "explanation": "trees before and after each job against a direct definition of the job, random documents and options",
        "trusted": ["roxmltree reads the text before and after"],
        "parts": [
            {
                "crate": "opt",
                "kani": [],
                "native": [
                    native("c33_jobs", ["Visitor::start", "RemoveComments", "RemoveDesc", "RemoveTitle", "RemoveMetadata", "RemoveStyleElement", "RemoveEmptyAttrs", "RemoveRasterImages", "RemoveElementsByAttr", "RemoveAttributesBySelector", "RemoveDimensions", "RemoveScripts", "RemoveEmptyText", "RemoveAttrs", "RemoveEditorsNSData", "RemoveUnusedNS", "RemoveEmptyContainers", "SortAttrs", "AddAttributesToSVGElement", "AddClassesToSVGElement", "RemoveViewBox", "RemoveXMLNS", "SortDefsChildren"], limit=500, random=3_000_000, seconds=30),
                    native("c33_xlink", ["RemoveXlink"], limit=500, random=1_000_000, seconds=10),
                ],
            }
        ],
    },
    "C34": {
        "level": "other",
        "technique": "postcondition contracts on the real jobs, on random documents",
        "note": (
            "Bounded: random documents of at most 12 elements in groups, links and switches, with attributes, inline styles, transforms, ids and animations, and at most 3 of the five jobs one after another. "
            "Oracle: what the document draws before and after, by a direct definition of inheritance, transforms and group effects. "
            "No style sheets: these jobs do not look at selectors that name a structure. No part is proved: jobs walk whole documents."
        ),
        "explanation": "shapes as drawn before and after the jobs against a direct definition of drawing, random documents",
        "trusted": ["roxmltree reads the text before and after"],
        "parts": [
            {
                "crate": "opt",
                "kani": [],
                "native": [
                    native("c34_small", ["CollapseGroups", "MoveElemsAttrsToGroup", "MoveGroupAttrsToElems", "RemoveNonInheritableGroupAttrs", "ConvertStyleToAttrs", "Element::flatten"], limit=300, random=3_000_000, seconds=20),
                    native("c34_documents", limit=100, random=3_000_000, seconds=20),
                ],
            }
        ],
    },
    "C35": {
        "level": "other",
        "technique": "postcondition contracts on the real jobs, on random documents and configurations",
        "note": (
            "Bounded: random documents of at most 4 shapes in different units, with and without a style sheet. "
            "Oracle: corners, centres and radii by the definition of each shape, against those read from the result, within the default precision. No part is proved: jobs walk whole documents."
        ),
        "explanation": "outlines of shapes before and after the jobs, random documents and options",
        "trusted": ["roxmltree reads the text before and after"],
        "parts": [
            {
                "crate": "opt",
                "kani": [],
                "native": [
                    native("c35_shapes", ["ConvertShapeToPath", "ConvertEllipseToCircle"], limit=300, random=3_000_000, seconds=20),
                ],
            }
        ],
    },
    "C36": {
        "level": "other",
        "technique": "postcondition contracts on the real job, on random transforms and configurations",
        "note": (
            "Bounded: lists of at most 3 transforms, not singular, with every option of the job. "
            "Oracle: the product of the matrices of each list, in double precision, within the precision asked for and the decimals of the matrices given. No part is proved: trigonometric functions are not within reach of the verifier."
        ),
        "explanation": "maps before and after the job, random lists of transforms and options",
        "trusted": ["roxmltree reads the text before and after"],
        "parts": [
            {
                "crate": "opt",
                "kani": [],
                "native": [
                    native("c36_transforms", ["ConvertTransform", "SVGTransformList::to_matrix_2d", "SVGTransform::matrix_to_transform", "SVGTransform::round"], limit=300, random=3_000_000, seconds=20),
                ],
            }
        ],
    },
}
