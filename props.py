"""Which harness entries decide which property, within which bounds."""
ASSUMPTIONS = [
    "the code is what rustc stable emits as LLVM IR at opt-level 1 with overflow checks on, linked with std as one module",
    "the hash function of HashMap is replaced by a constant (std's SipHash with random keys is not encoded): "
    "every key collides, so lookups compare keys; iteration order is that of insertion into one probe sequence",
    "allocation never fails; logging is off; one thread",
]


def q(quick, thorough):
    return {"quick": quick, "thorough": thorough}


TREE = q("trees of a document, its element, 2 more elements and a text or comment node in every shape (plus another document), then any one edit with any operands; "
         "lists of up to 4 siblings of any kind, then any 2 edits; and lists of 5, 8 and 17 siblings and chains as deep, with an edit of nodes at, beside or between the ends; up to 3 children of a document, fragment, attribute, entity reference or entity and any edit; chains of 3 elements or entity references in each of 6 kinds of parent and any edit",
         "the same with all 5 leaf kinds and a second edit; up to 4 children of the 5 other kinds of parent and 2 edits; chains of 3 containers and 2 edits; lists of up to 6 siblings; lists and chains of up to 40 nodes")
READ = ("5 documents with one arbitrary ASCII character inserted or replaced anywhere, %s characters removed anywhere or the rest cut off; any sequence of up to %d pieces of 10; "
        "any Unicode character in 10 places; references with up to 2 arbitrary ASCII characters; a source of 95 bytes in parts that end anywhere (two ends at most %d apart, or every byte), with a failure or not; "
        "printed trees of up to %d nodes in every shape, and 1 arbitrary character in text, comments, instructions, names and attributes (attributes: ASCII); sources of up to %d nested or adjacent parts, attributes or references with one fault anywhere, and contents of up to %d characters")
PROPS = {
    # not a property: the engine against a native run on a broad sample of std (not in MANIFEST.json)
    "SELF": {"entries": ["h_selftest"], "bounds": "12 groups of library code"},
    "P01": {"entries": ["h_tree", "h_list", "h_parents", "h_chain", "h_large"], "bounds": TREE},
    "P02": {"entries": ["h_tree", "h_list", "h_parents", "h_chain", "h_large"], "bounds": TREE},
    "P03": {"entries": ["h_tree", "h_list", "h_parents", "h_chain", "h_large"], "bounds": TREE},
    "P06": {"entries": ["h_chardata", "h_chardata_wide"], "bounds": q(
        "contents of up to 2 arbitrary Unicode characters, arguments of up to 1, one edit, any 64-bit offset and count; and any offset and count on contents of 3, 6, 9 and 17 characters of mixed widths",
        "contents of up to 3 arbitrary Unicode characters, two edits in a row, any 64-bit offset and count; and any offset and count on contents of up to 40 characters of mixed widths")},
    "P07": {"entries": ["h_split", "h_split_parents"], "bounds": q("up to 4 ASCII or 2 arbitrary Unicode characters, any 64-bit offset, neighbours of 6 kinds; 3 texts under 6 kinds of parent at 5 places among up to 16 siblings",
                                               "up to 5 ASCII or 3 arbitrary Unicode characters, any 64-bit offset, neighbours of 6 kinds; 3 texts under 6 kinds of parent at 5 places among up to 16 siblings")},
    "P08": {"entries": ["h_normalize", "h_normalize_deep", "h_normalize_large"], "bounds": q(
        "up to 4 children of 6 kinds, texts of up to 2 arbitrary ASCII characters; nesting depth 3 with up to 2 children per level, and an attribute of up to 3 pieces; runs of 5 and 17 texts or empty texts between other nodes of 5 kinds",
        "up to 5 children of 9 kinds, texts of up to 2 arbitrary ASCII characters; nesting depth 3 with up to 3 children per level, and an attribute of up to 3 pieces; the same of 5, 9, 17 and 40")},
    "P14": {"entries": ["h_name_short", "h_name_long", "h_name_longer"], "bounds": q(
        "all names of up to 2 arbitrary Unicode characters with 10 creators; one arbitrary character replaced or inserted anywhere in 4 longer names with 5 creators; names of 15 and 64 characters with one arbitrary character anywhere",
        "all names of up to 3 arbitrary Unicode characters; one arbitrary character anywhere in 4 longer names, 10 creators; names of up to 255 characters with one arbitrary character anywhere")},
    "P16": {"entries": ["h_escape", "h_escape_long", "h_escape_near"], "bounds": q("up to 2 arbitrary Unicode characters, 4 kinds of node; 1 arbitrary ASCII character in 3 to 40 escaped ones; 17 contents like markup or references with one arbitrary ASCII character inserted or replaced, or one removed", "up to 3 arbitrary Unicode characters, 4 kinds of node; 1 arbitrary ASCII character in 3 to 100 escaped ones; 17 contents like markup or references with one arbitrary ASCII character inserted or replaced, or one removed")},
    "P04": {"entries": ["h_matrix", "h_one_element"], "bounds":
        "all 12 kinds of parent, 12 kinds of child and 4 edits, the child new or moved, the fragment empty or not; documents with up to 3 children of 3 kinds and any next edit"},
    "P05": {"entries": ["h_owner", "h_owner_dropped"], "bounds":
        "every kind of node, 3 ways to create it, attached or not, 5 kinds of foreign parent and 4 edits; the same after both documents are dropped"},
    "P09": {"entries": ["h_attr_names", "h_attr_names_near", "h_attr_many"], "bounds": q(
        "any 3 operations, each with an arbitrary name of one letter, or one letter and a digit, then all lookups; 3 names with one arbitrary ASCII character inserted or replaced, one removed, or empty, 6 pairs of values; elements with 5, 9 or 17 attributes, one of them named by every operation",
        "any 4 operations, each with an arbitrary name of one letter, or one letter and a digit, then all lookups; 3 names with one arbitrary ASCII character inserted or replaced, one removed, or empty, 6 pairs of values; elements with up to 33 attributes, one of them named by every operation")},
    "P10": {"entries": ["h_attr_ns", "h_attr_ns_near", "h_attr_ns_many"], "bounds": q(
        "any 3 operations over 7 names (2 namespaces or none, 3 prefixes, 2 local names); lookups and changes with one arbitrary ASCII character inserted or replaced, or one removed, in the namespace, prefix or local name; elements with 4 or 9 attributes of mixed namespaces",
        "any 4 operations over 7 names (2 namespaces or none, 3 prefixes, 2 local names); lookups and changes with one arbitrary ASCII character inserted or replaced, or one removed, in the namespace, prefix or local name; elements with up to 17 attributes of mixed namespaces")},
    "P11": {"entries": ["h_attr_nodes", "h_attr_dropped"], "bounds": q(
        "any 3 operations on 2 elements and 4 attribute nodes of 2 names; attribute nodes whose element is dropped, cloned or replaced", "any 4 operations on 2 elements and 4 attribute nodes of 2 names; attribute nodes whose element is dropped, cloned or replaced")},
    "P12": {"entries": ["h_ids", "h_ids_near", "h_id_names", "h_ids_dropped", "h_ids_child", "h_ids_many"], "bounds": q(
        "any 3 operations on 2 elements and 2 identifiers, by name and by namespace, values unset or replaced by an attribute without one, with and without assumed identifiers; two identifiers and a lookup that differ in any one character; attribute names that differ from id or xml:id in any one character; elements dropped, cloned or moved; 11 changes of the attribute's children; documents of 5, 9 and 17 elements with identifiers, nested or not, one changed",
        "any 4 operations on 2 elements and 2 identifiers, by name and by namespace, values unset or replaced by an attribute without one, with and without assumed identifiers; two identifiers and a lookup that differ in any one character; attribute names that differ from id or xml:id in any one character; elements dropped, cloned or moved; 11 changes of the attribute's children; the same of up to 33 elements")},
    "P13": {"entries": ["h_ns", "h_ns_near", "h_ns_child", "h_ns_through", "h_ns_deep"], "bounds": q(
        "3 nested elements, any 3 declarations or undeclarations of a prefix or the default, 2 namespaces, with or without a detached subtree; prefixes and namespaces that differ in any one character; 11 changes of a declaration's children; 3 nested elements with or without entity references between them, any declarations and 6 changes of one; chains of 5, 9 and 17 elements with declarations at any two levels, one changed",
        "3 nested elements, any 4 declarations or undeclarations of 2 prefixes or the default, 2 namespaces, with or without a detached subtree; prefixes and namespaces that differ in any one character; 11 changes of a declaration's children; 3 nested elements with or without entity references between them, any declarations and 6 changes of one; the same of up to 33 levels")},
    "P15": {"entries": ["h_reserved", "h_set_prefix"], "bounds": q(
        "5 qualified names and 4 namespaces with one arbitrary character inserted or replaced (at 5 places of a namespace), one removed, 5 creators; prefixes of up to 1 arbitrary Unicode character and the reserved ones with an arbitrary last character",
        "5 qualified names and 4 namespaces with one arbitrary character inserted or replaced anywhere, one removed, 5 creators; prefixes of up to 2 arbitrary Unicode characters and the reserved ones with an arbitrary last character")},
    "P21": {"entries": ["h_kinds"], "bounds": "all 12 kinds of node, all casts; new values of up to 2 arbitrary ASCII characters"},
    "P26": {"entries": ["h_dropped", "h_dropped_parent"], "bounds": "all 12 kinds of node, attached or not, and each of 10 groups of operations after the document is dropped; 5 kinds of parent with 3 children, 7 changes of them, or the parent dropped as well"},
    "P17": {"entries": ["h_value_any", "h_value_ascii", "h_value_refs", "h_value_routes", "h_value_codes", "h_value_long", "h_value_many"], "bounds": q(
        "values of 1 arbitrary Unicode or 2 arbitrary ASCII characters; references with up to 2 arbitrary characters inside, or one character of 9 references replaced, or any 2 digits of 7 codes; an arbitrary ASCII character in values of up to 31 characters; values of up to 2 pieces out of 9 through 7 ways to set them; 3 to 17 references and line ends",
        "values of 2 arbitrary Unicode or 3 arbitrary ASCII characters; references with up to 2 arbitrary characters inside, or one character of 9 references replaced, or any 2 digits of 15 codes; an arbitrary ASCII character in values of up to 130 characters; values of up to 3 pieces out of 10 through 7 ways to set them; 3 to 40 references and line ends, an arbitrary ASCII character among them")},
    "P18": {"entries": ["h_shown", "h_shown_text", "h_shown_document", "h_shown_large"], "bounds": q(
        "trees of a document element and up to 3 nodes of 7 kinds in every shape; 1 arbitrary Unicode character in any text of trees of 3 nodes, up to 2 attributes on any element; documents with every declaration, document type and up to 2 nodes around the element; chains and lists of 5, 9 and 17 nodes, and as many attributes",
        "trees of a document element and up to 4 nodes of 7 kinds in every shape; 1 arbitrary Unicode character in any text of trees of 3 nodes, up to 2 attributes on any element; documents with every declaration, document type and up to 2 nodes around the element; the same of up to 40"),
        "assumptions": ["the order in which an element's attributes are printed is open"]},
    "P19": {"entries": ["h_by_tag", "h_by_tag_large"], "bounds": q(
        "trees of the document element and 3 nodes (elements of 5 names, or entity references) in every shape, every start node, 5 names, 3 namespaces, wildcards and an arbitrary letter as query; chains, lists and combs of 5, 9 and 17 elements",
        "trees of the document element and 4 nodes (elements of 5 names, or entity references) in every shape, every start node, 5 names, 3 namespaces, wildcards and an arbitrary letter as query; the same of up to 40")},
    "P20": {"entries": ["h_clone", "h_clone_value", "h_clone_top", "h_clone_large"], "bounds": q(
        "trees of the document element and 2 nodes of 7 kinds in every shape (elements and entity references with children), any of them cloned, deep and shallow, with up to 4 attributes; fragments, references, attributes and elements with up to 3 children of 6 kinds and their children; text of 1 arbitrary Unicode character; chains and lists of 5, 9 and 17 nodes, and as many attributes",
        "trees of the document element and 3 nodes of 7 kinds in every shape (elements and entity references with children), any of them cloned, deep and shallow, with up to 4 attributes; fragments, references, attributes and elements with up to 3 children of 6 kinds and their children; text of 1 arbitrary Unicode character; the same of up to 40"),
        "assumptions": ["documents, document types, entities and notations are not cloned: what that means is left to the implementation by DOM"]},
    "P22": {"entries": ["h_decl", "h_version"], "bounds": q(
        "encodings of up to 2 arbitrary Unicode characters, one character of 3 names replaced, 2 arbitrary ASCII characters inside a name; versions of up to 4 arbitrary ASCII characters, and one character of the two versions replaced",
        "encodings of up to 3 arbitrary Unicode characters, one character of 3 names replaced, 2 arbitrary ASCII characters inside a name; versions of up to 5 arbitrary ASCII characters, and one character of the two versions replaced")},
    "P23": {"entries": ["h_options"], "bounds": q("any 4 operations on two sets of options", "any 5 operations on two sets of options")},
    "P24": {"entries": ["h_feature"], "bounds": q(
        "3 feature names and 3 versions, each with any one character inserted, replaced or removed, and versions of up to 1 arbitrary ASCII character",
        "3 feature names and 3 versions, each with any one character inserted, replaced or removed, and versions of up to 3 arbitrary ASCII characters")},
    "P25": {"entries": ["h_new_document", "h_identifiers"], "bounds":
        "5 namespaces, 7 names or one arbitrary ASCII character, with no, a new and a used document type; identifiers with 1 arbitrary Unicode character"},
    "P27": {"entries": ["h_other_interface"], "bounds":
        "all 12 kinds of node and 22 groups of operations; any 64-bit offset and count, arguments of up to 1 arbitrary ASCII character"},
    "P28": {"features": "parser", "entries": ["h_read_near", "h_read_any", "h_read_char", "h_read_refs", "h_read_parts", "h_read_printed", "h_read_printed_char", "h_read_comment", "h_read_large"], "bounds": q(READ % ("1 or 2", 4, 6, 3, 17, 70), READ % ("1 to 6", 5, 40, 4, 70, 300)),
        "assumptions": ["open, whatever the library does: control characters and line ends other than LF, DOCTYPE, names that start with xml, two attributes with no space between, '<' in an attribute value, '--' in a comment, ']]>' in text, irregular declarations, and the case of CDATA (the last four and the signs of numbers are quick-xml's)"]},
    "P29": {"features": "parser", "entries": ["h_read_near", "h_read_any", "h_read_char", "h_read_refs", "h_read_parts", "h_read_large"], "bounds": q(READ % ("1 or 2", 4, 6, 3, 17, 70), READ % ("1 to 6", 5, 40, 4, 70, 300)),
        "assumptions": ["what P28 leaves open is open here"]},
}
