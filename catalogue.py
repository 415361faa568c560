#!/usr/bin/env python3
"""The properties: writes properties.jsonl and MANIFEST.json (run it after editing)."""
import json, os, subprocess
import props

TI, NI, NM, TX, DI = ("src/level2/trait_impls.rs", "src/level2/node_impl.rs", "src/shared/name.rs",
                      "src/shared/text.rs", "src/shared/display.rs")
TR, NS, ER = "src/level2/traits.rs", "src/level2/ext/namespaced.rs", "src/level2/entity_resolver.rs"

P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


p("P01", "Parent, child and sibling links always agree",
  "After any edit, accepted or rejected, a node is in the child list of exactly its parent and exactly once; first, last, "
  "previous and next navigation give the neighbours in that list, and a node without a parent is in no list and has no siblings. "
  "No node is ever its own ancestor.",
  ["histories", "inputs"], "every tree shape over the bounded set of nodes, and every edit (append, insert, replace, remove) with any target, new and reference node",
  "tests edit a few fixed trees; the links must agree after every edit of every shape, including moves within and between parents",
  [TI, NI], [("insert, replace, remove, navigation", TI)])

p("P02", "Child edits put the node exactly where asked",
  "An edit that the documentation allows is accepted: append puts the node last, insert before the reference child, replace in the "
  "place of the old child, remove takes it out; a node that was elsewhere is moved there, and all other nodes keep their parents and order. "
  "Append and insert return the new node; replace and remove return the one taken out.",
  ["histories", "inputs"], "every bounded tree shape, every legal edit in it, every position, moves included",
  "tests insert at one or two positions of short lists; position arithmetic goes wrong only for particular positions and moves",
  [TI], [("insert_before, replace_child, remove_child, append_child", TI)])

p("P03", "A rejected child edit reports why and changes nothing",
  "An edit that would make a node a child of itself or of a descendant, put a kind of node where it is not allowed, give a document a second element, "
  "name a reference or old node that is not a child of the target, or move a node between documents returns an error of the documented kind "
  "(hierarchy, not found, wrong document). The tree, both places included, is then exactly as before.",
  ["inputs", "histories", "fault_sequences"], "every bounded tree shape and every illegal edit in it, including ones that are illegal in several ways",
  "tests check a few error codes, and never that the tree is unchanged afterwards",
  [TI], [("checks before insertion", TI)])

p("P06", "Character data edits act on the stated range or are refused",
  "Substring, insert, delete, replace and append act on the byte range that starts at the offset and ends after the count or at the end of the data, and on nothing else. "
  "An offset past the end, or a range that would cut a character, is refused with an index error, leaves the data as it was, and never panics.",
  ["inputs", "histories"], "every offset and count of the machine word, every bounded content with any Unicode characters, sequences of edits",
  "tests use a handful of offsets into ASCII words; overflow, the exact end and multi-byte characters are in no test",
  [TI, TR], [("substring/insert/delete/replace/append data", TI)])

p("P07", "Splitting text loses nothing and keeps order",
  "Splitting a text or CDATA node at an offset leaves the part before it in the node and gives a new node of the same kind and document with the rest, placed as its next sibling if it has a parent. "
  "Splitting at an offset inside a character is refused with an index error, splitting another kind of node is refused, and a refused split changes nothing.",
  ["inputs"], "every offset of the machine word, bounded contents with any Unicode characters, with and without parent and siblings",
  "tests split fixed ASCII words in the middle",
  [TI, TR], [("split", TI)])

p("P08", "Normalizing leaves no empty or adjacent text, and loses none",
  "After normalizing a node there is no empty text node and no two adjacent text nodes at any depth below it, in elements and attributes, except that an attribute may keep one empty text node. "
  "The text between other nodes is the same as before, CDATA sections and all other nodes are the same nodes in the same order, and normalizing again changes nothing.",
  ["inputs", "histories"], "every sequence of children of the bounded kinds and lengths, in nested elements and attributes, with any characters",
  "tests normalize one or two flat lists",
  [TI], [("normalize", TI)])

p("P14", "A node is created if and only if its name is an XML name",
  "Creating an element, attribute, entity reference, processing instruction, document, document type, entity or notation succeeds exactly for the qualified names of the XML namespaces recommendation (and, for processing instructions, not the reserved target). "
  "The node then has that name, split at the colon into prefix and local part; any other string is refused with an error and never panics.",
  ["inputs"], "every string of any Unicode characters up to the length bound, and every character anywhere in longer names, for every creator",
  "tests try some dozen names; the character classes have 40 boundaries and are applied per position",
  [NM, TX, TI], [("name parsing", NM), ("character classes", TX), ("creators", TI)])

p("P16", "Text and comment data are escaped; raw values are kept",
  "The data of a text or comment node is its value with each of the five markup characters replaced by its character reference and every other character as it is; CDATA sections and processing instructions give their data unchanged. "
  "The node value is always the string that was set, the length is that of the raw value, and an unset node has no value, no data and length zero.",
  ["inputs"], "every bounded content with any Unicode characters, set at creation or later",
  "tests escape a few fixed strings",
  [TX, TR], [("escape", TX), ("data, length", TR)])

p("P04", "Only the kinds of node that DOM allows can be nested",
  "Adding a child succeeds if and only if its kind is allowed under its parent's kind, with append, insert and replace alike, for new nodes and moved ones: elements, fragments, entities and entity references take elements, text, CDATA, comments, processing instructions and entity references, "
  "attributes take text and entity references, a document takes comments, processing instructions and at most one element, and other kinds take nothing. Anything else is a hierarchy error that changes nothing. "
  "Inserting a document fragment inserts its children in its place and leaves it empty.",
  ["inputs"], "every kind of parent, kind of child, edit and position",
  "tests try some of the 144 pairs, with one of the edits, and not the state afterwards",
  [TI, NI], [("is_child_allowed", TI), ("insert_before, append_child, replace_child", TI)])

p("P05", "Every node belongs to the document that created it",
  "Every node but a document and an unused document type has as owner the document that created it, and keeps it when moved, removed or cloned. A document type belongs to the first document created with it and no other document can take it. "
  "A node of one document is refused as child or attribute of a node of another with a wrong-document error, and both stay as they were.",
  ["inputs", "histories"], "every kind of node, every creator, every kind of foreign parent, every edit",
  "tests look at the owner of a few new elements and never mix documents",
  [TI, NI], [("owner document checks", TI), ("constructors", NI)])

p("P09", "Attributes by name behave like a map",
  "After any sequence of setting (by value or node) and removing attributes by name, reading an attribute gives the last value set and not removed since, or nothing; the node and the has-attribute queries agree with it, and the attribute map has exactly the present names. "
  "A string that is not a name is refused when set and absent when read.",
  ["histories", "inputs"], "every bounded sequence of operations, with arbitrary names that may or may not coincide",
  "tests set and remove one or two fixed names",
  [TI], [("set/get/remove attribute", TI)])

p("P10", "Attributes with a namespace are found by namespace and local name",
  "An attribute set with a namespace is identified by namespace and local name whatever its prefix: setting it again replaces value and prefix, and reading or removing by any other namespace or local name does not touch it. "
  "It is also found by its qualified name, and setting an attribute by qualified name changes the one that has that name.",
  ["histories", "inputs"], "every bounded sequence of operations on names that share namespaces, prefixes and local names, and lookups with arbitrary letters",
  "tests use one namespace and one prefix, so nothing that confuses prefix, local name and namespace shows",
  [TI, NM], [("attribute methods with _ns", TI), ("equality of names", NM)])

p("P11", "An attribute node belongs to one element at most",
  "An attribute node's owner element is exactly the element whose attributes contain it, or none. Setting one that another element owns is refused as in use, one set in place of another frees the other, removing one that is not there is not found, "
  "and a refused operation changes nothing. Attributes have no parent and no siblings.",
  ["histories"], "every bounded sequence of setting and removing attribute nodes, by node and by name, on two elements",
  "tests attach an attribute node once",
  [TI, NI], [("set_attribute_node, remove_attribute_node", TI), ("owner_element", TI)])

p("P12", "Looking up an ID finds the element that has it now",
  "Looking up an identifier gives the element whose ID attribute (xml:id, or id when the document's options assume so) has that value at the time, and nothing for a value that was removed, replaced or set only on a plain attribute. "
  "Giving an element an identifier that another one has is refused and changes nothing.",
  ["histories", "inputs"], "every bounded sequence of setting, changing and removing ID attributes on two elements, in every way the API offers; arbitrary identifiers",
  "tests set an identifier once and look it up",
  [TI, NI], [("id map maintenance", TI), ("get_element_by_id", TI)])

p("P13", "Namespace lookups follow the nearest declaration in scope",
  "With namespaces enabled, resolving a prefix (or the default) gives the namespace declared on the element or on its nearest ancestor that declares it, and looking a namespace up gives a prefix that the nearest element mapping it declares; the direct queries see the element's own declarations only. "
  "Changing or removing a declaration takes effect at once. Attributes that are not declarations, and documents without the option, map nothing.",
  ["histories", "inputs"], "every bounded sequence of declaring, redeclaring and removing on three nested elements, in every way the API offers; arbitrary one-letter prefixes",
  "tests resolve fixed declarations that are never changed or shadowed",
  [NS, TI, NI], [("resolve_namespace, resolve_prefix", NS), ("mapping maintenance", TI)])

p("P15", "The reserved prefixes go with their namespaces only",
  "A name with prefix xml is created only in the XML namespace, and one with prefix xmlns, or that is xmlns, only in the namespace of declarations; other prefixes are free, and an empty namespace is refused. This holds for elements, attributes, documents and names, and when a prefix is changed. "
  "An accepted name keeps namespace, prefix and local name as given.",
  ["inputs"], "every creator, the reserved names and namespaces and all their one-letter neighbours, arbitrary new prefixes",
  "tests try the reserved names themselves, not their neighbours nor every creator",
  [NM], [("check of namespace and prefix", NM), ("set_prefix", NM)])

p("P21", "A node's kind decides its type, casts, name and value",
  "Each node reports the DOM type, type code and node name of its kind; exactly the predicates and casts for its kind (and the character data ones for text, CDATA and comments) succeed, the others fail with an invalid-state error. "
  "Setting the value of a kind that has one is read back, and the others have none and never get one.",
  ["inputs"], "every kind of node and every cast and predicate; arbitrary new values",
  "tests cast a few kinds; one wrong entry in a table of 12 by 26 goes unseen",
  ["src/level2/convert.rs", TI, "src/level2/dom_impl.rs"], [("casts and predicates", "src/level2/convert.rs"), ("node_name, node_value", TI)])

p("P26", "Nodes stay usable after their document is dropped",
  "A node kept after its document and parents are dropped has no owner, parent or siblings, keeps its name, value, attributes and children, and reading, printing, cloning, normalizing, editing or dropping it never panics.",
  ["histories", "fault_sequences"], "every kind of node, attached or not, and every operation on it afterwards",
  "tests keep the document alive for as long as they use its nodes",
  [TI, NI, "src/shared/rc_cell.rs"], [("weak references", "src/shared/rc_cell.rs"), ("owner document", TI)])

p("P17", "Attribute values are normalized as XML prescribes, then escaped",
  "However an attribute's value was set, reading it gives the text after line ends became line feeds, white space became spaces, and character and predefined entity references became their characters, with the five markup characters then given as character references. "
  "References to what is not a character or not declared stay as they are, nothing panics, and the text child keeps the string as it was set. An attribute that has no value reads as none.",
  ["inputs"], "every bounded value of arbitrary characters, references with arbitrary characters in them, combinations of line ends and references, every way to set a value",
  "tests normalize a handful of fixed strings; the grammar of references and line ends is a language",
  [TX, TI, ER], [("normalize_attribute_value, normalize_end_of_lines", TX), ("predefined entities", ER), ("value, set_value", TI)])

p("P18", "Printing a tree gives exactly its nodes, in order, as markup",
  "A printed element is its start tag with every attribute once, its children in order and its end tag; text, CDATA, comments, processing instructions and references print in their XML forms, with text and attribute values escaped. "
  "A printed document is its declaration, document type and children in order. A part prints the same alone as inside the whole.",
  ["inputs"], "every bounded shape and kind of tree, with and without attributes, arbitrary characters in any text, every form of declaration and document type",
  "tests print a few trees with plain text in them",
  [DI, TI, TX, "src/level2/ext/decl.rs"], [("fmt_ functions", DI), ("declaration", "src/level2/ext/decl.rs")])

p("P19", "Searching by tag name gives every match below, in document order",
  "Searching an element gives exactly its proper descendants that are elements with that qualified name, or with that namespace and local name, in document order and once each; searching a document includes the document element. "
  "A star matches every name, every namespace (none included) or every local name.",
  ["inputs"], "every bounded tree of elements whose names share prefixes, local names and namespaces, every start node, and queries with arbitrary letters",
  "tests search one tree with names that differ in every part",
  [TI], [("elements_by_tag_name, namespaced_name_match", TI)])

p("P20", "A clone is an equal, free and independent copy",
  "A clone has the same kind, name, value, namespace mappings and attributes, the attributes are owned by the clone, and has copies of all descendants if deep and no children otherwise (an attribute always has its value). It has no parent and the same owner document, and identifiers still find the original. "
  "Changing either of the two afterwards does not change the other.",
  ["inputs", "histories"], "every bounded tree and node in it, deep and shallow, every kind of change to either side afterwards",
  "tests clone one or two flat elements and compare names",
  [NI, TI], [("clone_node", NI), ("clone_node", TI)])

p("P22", "XML declarations are valid, and kept and printed as given",
  "A declaration is made exactly for encodings that are names of the XML recommendation, anything else is refused by a panic; version, encoding and standalone are then what was given, print as the XML declaration and are kept by the document they are set on, until set again. "
  "A version is read only from 1.0 and 1.1 and prints as it was read.",
  ["inputs"], "every bounded string as encoding or version, and every one-character change of valid ones",
  "tests print six declarations and never try an invalid encoding",
  ["src/level2/ext/decl.rs", "src/level2/ext/trait_impls.rs"], [("is_encoding, Display", "src/level2/ext/decl.rs")])

p("P23", "Processing options are a set, and documents obey them",
  "Setting an option, and combining two sets by union or intersection, changes just the options concerned; the queries, equality and display agree with the set. "
  "A document recognizes plain id attributes as identifiers only with that option, and keeps namespace declarations only with that one.",
  ["histories"], "every bounded sequence of operations on two sets of options",
  "tests set one option at a time and do not combine the effects",
  ["src/level2/ext/options.rs", TI, NI], [("ProcessingOptions", "src/level2/ext/options.rs"), ("use of the options", TI)])

p("P24", "A feature is supported exactly by name and version",
  "The features Core and XML, in any case, are supported in versions 1.0 and 2.0 and without a version; no other feature and no other version is. All ways to ask agree: implementation, document and node.",
  ["inputs"], "every feature and version that differs in any one character from a known one",
  "tests ask for four fixed pairs",
  [TI, "src/shared/syntax.rs"], [("has_feature, is_supported", TI)])

p("P25", "A new document has what was asked for, or nothing is changed",
  "Creating a document gives one with exactly the asked-for element (name, namespace, owner and parent right, no attributes or children) and document type, and without an XML declaration; an invalid name, a name with an empty or wrong namespace, a namespace without a name or a used document type is refused, "
  "and a refused creation leaves the document type free for another document. Public and system identifiers, and values of entities, are kept as given.",
  ["inputs", "fault_sequences"], "every combination of the bounded namespaces, names and document types; identifiers with arbitrary characters",
  "tests create documents from valid arguments and one invalid one, and do not look at the document type afterwards",
  [TI, NI, "src/level2/ext/dom_impl.rs"], [("create_document_with_options", TI), ("constructors", NI)])

p("P27", "A node is not changed through another kind's interface",
  "All node kinds share one type, so any interface can be called on any node: reading what a node's kind does not have gives nothing, and setting attributes, attribute values, character data or declarations, or splitting, on a node of another kind is an error. The node stays as it was, and nothing panics.",
  ["inputs"], "every kind of node, every operation of every other kind's interface, any offset and count",
  "tests cast nodes first, so none calls an operation on a wrong kind",
  [TI, "src/level2/ext/trait_impls.rs", NS], [("node type checks", TI)])

PA = "src/parser/mod.rs"
p("P28", "A document that is read is the one the text describes",
  "With feature quick_parser, well-formed text without a DOCTYPE is read into the document it describes: the XML declaration (version, encoding, standalone), and comments, processing instructions, elements, attributes, text and CDATA sections in order with their names and values, references replaced once. "
  "Only white space around text and instruction data goes, and text that is only white space. read_reader gives the same wherever the parts of its source end, and text that a document prints reads back as an equal document (CDATA sections, whose printed form adds spaces, and white space at the ends of text apart).",
  ["inputs", "fault_sequences"], "every document within one arbitrary character of the base documents, every bounded sequence of constructs, every character in each place, every division of a source",
  "tests read eight documents, only look whether that succeeds, and do not build in the baseline configuration",
  [PA, "src/shared/display.rs"], [("read_xml, read_reader", PA), ("element, document", PA), ("display", "src/shared/display.rs")])

p("P29", "Malformed text is refused with an error",
  "With feature quick_parser, reading never panics, and text that is not well-formed is an error, never a partial document: text cut off, tags that do not match or are not closed, no or several document elements, text outside it, invalid names, repeated or unquoted attributes, unknown or unterminated references, "
  "a declaration that is not first or has an invalid version, encoding or standalone value. A failing source is an error too.",
  ["inputs", "fault_sequences"], "every document within one arbitrary character, removal or cut of the base documents, every bounded sequence of constructs, every point at which a source fails",
  "tests read only well-formed documents",
  [PA], [("document, element", PA), ("make_decl", PA)])

NOT_APPLICABLE = {}



def design(ps):
    """the generated tables of DESIGN.md"""
    import glob, os, re
    if not os.path.exists("DESIGN.md"):
        return
    d = open("DESIGN.md").read()

    def put(mark, text):
        nonlocal d
        d = re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (mark, mark), lambda m: "<!-- %s -->\n%s\n<!-- /%s -->" % (mark, text, mark), d, flags=re.S)

    rows = ["| property | entries | bounds (quick) | bounds (thorough, where they differ) |", "|---|---|---|---|"]
    for x in ps:
        if x["id"] in props.PROPS:
            s = props.PROPS[x["id"]]
            b = s["bounds"] if isinstance(s["bounds"], dict) else {"quick": s["bounds"], "thorough": s["bounds"]}
            rows.append("| %s %s | %s | %s | %s |" % (x["id"], x["title"], ", ".join(e[2:] for e in s["entries"]), b["quick"],
                                                  "the same" if b["thorough"] == b["quick"] else b["thorough"]))
    put("bounds", "\n".join(rows))
    if glob.glob("seeded/*"):
        rows = ["| change | property whose check catches it | needs | breaks |", "|---|---|---|---|"]
        for f in sorted(glob.glob("seeded/*/meta.json")):
            m = json.load(open(f))
            rows.append("| %s | %s | %s | %s |" % (f.split("/")[1], m["property"], str(m["needs"]).replace("|", "/"), str(m["what_it_breaks"]).replace("|", "/")))
        put("seeded", "\n".join(rows))
    open("DESIGN.md", "w").write(d)


if __name__ == "__main__":
    P.sort(key=lambda x: x["id"])
    with open("properties.jsonl", "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    claimed = [x["id"] for x in P if x["id"] in props.PROPS]
    m = {
        "version": 1,
        "setup_cmd": "true",
        "checks": [{
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of the compiled code (LLVM IR) with an SMT solver (Z3)",
            "level": "model_checking",
            "level_note": (props.PROPS[i]["bounds"] if isinstance(props.PROPS[i]["bounds"], str) else props.PROPS[i]["bounds"]["quick"])
                          + "; within these, every value is decided by the solver; counterexamples are replayed natively",
        } for i in claimed],
        "not_applicable": [{"property": x["id"], "reason": NOT_APPLICABLE.get(x["id"], "?")} for x in P if x["id"] not in props.PROPS],
        "notes": "Each check builds the engine, the IR and the native replay from scratch in build/ (about 25 s); see DESIGN.md.",
    }
    json.dump(m, open("MANIFEST.json", "w"), indent=1)
    design(P)
    assert all("?" != n["reason"] for n in m["not_applicable"]), m["not_applicable"]
    print(len(P), "properties,", len(claimed), "claimed")
