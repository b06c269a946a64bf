"""Writes properties.jsonl."""
import json, os
P = []
T, TP, TR, TL, N = "rsm/transformer.py", "rsm/tsparser.py", "rsm/translator.py", "rsm/linter.py", "rsm/nodes.py"


def p(id, title, statement, text, why, files, mech, over=("inputs",), observe=("rsm.render",)):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe))))


p("C01", "A well-formed manuscript renders and earns exactly the warnings it deserves",
  "Every syntactically correct manuscript renders, with and without handrails, to a complete page on which nothing is marked as an error. "
  "The warnings issued are exactly one for each repeated label, each reference or citation of a label that does not exist, each reference "
  "to a previous step without a label, each table of contents after the first, each piece of code in an unknown language, and each missing "
  "venue, year or DOI of a bibliography entry.",
  "all well-formed manuscripts over every construct, any nesting and size", "the tests render about 150 short fixed manuscripts, mostly of one construct; almost none looks at the log",
  [TP, T, TR, "rsm/app.py"], [("parse to tree", f"{TP}:TSParser.parse"), ("label and reference diagnostics", f"{T}:Transformer"), ("translation", f"{TR}:Translator.translate")],
  over=("inputs", "programs"), observe=("rsm.render", "the RSM loggers"))
p("C02", "Any text gives a page or a declared refusal, and syntax errors are never silent",
  "Whatever text is given as a manuscript, rendering and linting end, in seconds for a few thousand characters, however repetitive, with a page, or with one of the tool's own errors, or with an empty result and an error in the log; plain and handrails rendering agree on which. "
  "Every outermost syntax error is warned about with the position of the text that could not be understood, and errors in running text are marked on the page where they are. "
  "Steps, items, captions and references to previous steps in places where they make no sense are refused with one of the tool's own errors.",
  "every string of characters, in particular every damaged manuscript", "the tests contain a handful of malformed sources; crashes depend on combinations of damage and construct",
  [TP, T, TR, "rsm/app.py"], [("errors of the concrete tree", f"{TP}:_warn_error, _well_formed_children"), ("refusals", f"{T}:RSMTransformerError, {N}:RSMNodeError"), ("one place that catches parser errors", "rsm/app.py:RSMApp.run")],
  over=("inputs", "fault_sequences"), observe=("rsm.render", "rsm.lint", "the RSM loggers"))
p("C03", "Every page is balanced HTML",
  "The body of every page, plain or with handrails, with or without the source, from any text or from a tree changed by a program, is balanced: each element is closed in the element that holds it, no attribute is given twice, and text or attribute values never form markup. "
  "For well-formed manuscripts, paragraphs, headings, links, list items, rows and cells also stand only where HTML allows them.",
  "all sources that give a page, and all edited trees", "tests compare whole strings for single constructs; balance breaks where constructs meet (paragraphs around displays, deferred closing tags)",
  [TR], [("deferred closing tags", f"{TR}:EditCommand classes, Translator.leave_node"), ("paragraph tags around displays", f"{TR}:visit_paragraph, leave_mathblock"), ("escaping", f"{TR}:_text, _make_tag")],
  over=("inputs", "programs", "histories"), observe=("rsm.render", "Translator.translate"))
p("C04", "The page has exactly the structure of the manuscript",
  "Every construct of the manuscript becomes its element of the page, in the order and nesting of the source, and the page holds nothing else: sections and headings by level, paragraphs, theorem-like blocks with their titles, proofs, lists, figures, tables with head, body and caption, displays, code, algorithms, abstract, authors, notes, drafts and inline markup.",
  "all well-formed manuscripts over every construct, any nesting, size and spelling", "each test fixes one manuscript; interactions of nesting, order, emptiness and spelling are not sampled",
  [TP, T, TR], [("construction of nodes", f"{TP}:_abstractify"), ("tree transformations", f"{T}:Transformer.transform"), ("one visit method per node class", f"{TR}:Translator.visit_*")], over=("inputs", "programs"))
p("C05", "The author's text reaches the reader unchanged",
  "Every word of the manuscript, in running text, titles, captions, cells, notes, names, keywords, bibliography entries, code, mathematics, paths and addresses, is shown by a browser exactly as written, once, in the order of the source. "
  "This holds for characters that mean something to HTML and for all of Unicode.",
  "all well-formed manuscripts whose words are arbitrary characters", "tests use English words; escaping must hold in every one of some thirty places that emit text",
  [TR, TP], [("escaping of text", f"{TR}:_text"), ("escaping of attribute values", f"{TR}:_make_tag"), ("UTF-8 decoding of node text", f"{TP}:TSParser")])
p("C06", "Labels become anchors, once each, and node ids identify nodes",
  "Every label is the id of exactly one element, that of the first node which carries it, in plain pages and with handrails; no id occurs twice on a page and every link within the page to a labeled element leads to one. "
  "The node ids on a page are distinct, in document order, and identify the node of the tree that the element came from.",
  "all manuscripts with any labels, repeated ones included", "tests have few labels per manuscript and no duplicates across kinds",
  [T, TR], [("label table", f"{T}:collect_labels"), ("generated labels", f"{T}:collect_labels, resolve_pending_references"), ("ids of elements", f"{TR}:_make_tag, AppendNodeTag")], observe=("rsm.render", "Node.label", "Node.nodeid"))
p("C07", "Cross references say what they point to, and lead there",
  "A reference, before or after its target, links to the element with that label and reads as the author wrote, or else as the target is called (its own reference text, or its kind and number). "
  "A reference to an unknown label is shown as an error that names the label, and links to addresses keep their target and text.",
  "all manuscripts with references to any labels, in any direction", "tests have one or two references per manuscript, to sections and theorems mostly",
  [T, TR, N], [("resolution", f"{T}:resolve_pending_references"), ("reference text", f"{N}:Node.reftext"), ("links", f"{TR}:_make_ahref_tag_text")])
p("C08", "Citations, bibliography and back references agree",
  "Every citation, of one or several works, shows in brackets the number of each bibliography entry it names and links to it, or says that the label is unknown; each entry of the bibliography, in source order and numbered from 1, links back to exactly the citations of it, in order. "
  "Entries show author, title, venue, year and DOI link as far as given.",
  "all manuscripts with citations anywhere and any bibliography", "tests cite at most three works, in paragraphs",
  [T, TR, N], [("citations and back links", f"{T}:resolve_pending_references"), ("bibitems", f"{TR}:visit_bibitem"), ("citations", f"{TR}:visit_cite")])
p("C09", "Automatic numbers are consecutive within their scope, and the same everywhere",
  "Numbered sections, subsections and subsubsections count within their parent, theorem-like blocks (together), figures and displays each within the numbered section, tables, algorithms and bibliography entries through the document, and steps within their proof, each consecutively from 1 in document order, skipping unnumbered ones; sections of the appendix are lettered A to Z, AA and so on. "
  "The number of an element is the same in its heading, title or caption, in the table of contents and in every reference.",
  "all manuscripts with any sequence of numbered, unnumbered and appendix elements", "tests number two or three elements; resets, scopes, the appendix and their combinations are unbounded",
  [T, N, TR], [("counters", f"{T}:autonumber_nodes, _autonumber_steps, _appendix_numbers"), ("full numbers", f"{N}:Node.full_number"), ("headings and captions", f"{TR}:visit_section, visit_caption")], observe=("rsm.render", "Node.full_number"))
p("C10", "The table of contents mirrors the sections",
  "The table of contents lists every section, subsection and subsubsection once, in order, nested as they are, with number and title as in their headings, and each entry links to its section. Only the first table of contents is shown.",
  "all manuscripts with a table of contents and any sections", "tests have one table of contents over a few sections",
  [T, TR], [("construction", f"{T}:make_toc"), ("display", f"{TR}:visit_contents")])
p("C11", "Structured proofs keep their shape",
  "In a proof, each step shows its statement first and its subproof, written or implied by nested steps, after it; nothing is lost, repeated or reordered, whatever comes before, between or after them, and the last step is marked. "
  "References to steps and to previous steps read as the number of that step and lead to it, however deep.",
  "all manuscripts with proofs of any depth and shape", "tests have proofs of two or three levels",
  [T, TR], [("implied subproofs", f"{T}:add_necessary_subproofs"), ("previous steps", f"{T}:resolve_pending_references"), ("step numbers", f"{T}:_autonumber_steps")])
p("C12", "Layout and comments carry no meaning",
  "Changing line breaks within paragraphs, indentation, the number of blank lines between blocks or the order of a tag's metadata, and adding or removing comments, changes neither the page nor the tree.",
  "all pairs of a well-formed manuscript and another layout of it", "a metamorphic relation over pairs of sources; tests hold single sources",
  [TP], [("white space and comments", f"{TP}:_abstractify, _normalize_text, _sibling"), ("metadata", f"{TP}:_parse_meta_into_dict")], observe=("rsm.render", "rsm.lint"))
p("C13", "A backslash takes the meaning from a delimiter everywhere, and from nothing else",
  "A delimiter after a backslash is plain text, without the backslash, in every place that holds text: paragraphs, all titles, captions, cells, items, steps, constructs, notes and the texts of references. "
  "Before any other character a backslash is kept, and strings with escapes can be searched, split and unescaped without losing or inventing characters.",
  "all texts over delimiters, backslashes and other characters, in each place", "tests escape a few delimiters in paragraphs",
  [TP, "rsm/util.py", TR], [("escaped strings", "rsm/util.py:EscapedString"), ("unescaping of text and titles", f"{TP}:_abstractify")], observe=("rsm.render", "EscapedString"))
p("C14", "Mathematics, code and algorithms are verbatim",
  "What is written between the delimiters of inline and displayed mathematics, code and algorithms, in any notation, reaches the page character by character, apart from outer white space, whatever markup it resembles; it causes no warning and does not affect the text around it.",
  "all texts not containing the closing delimiter, in each verbatim notation and place", "tests hold a few formulas and code samples",
  [TP, TR], [("as-is text", f"{TP}:_abstractify (asis_text)"), ("code", f"{TR}:visit_sourcecode, highlight_code"), ("mathematics", f"{TR}:visit_math, visit_mathblock")])
p("C15", "Equivalent notations give the same page",
  "A shorthand and the tags it stands for (headings by number sign, strong and emphasised text, inline and displayed mathematics and code, rows with separators, counted previous steps, bare paragraphs) give the same page and the same tree, in every context.",
  "all well-formed manuscripts, each written in two ways", "tests check each shorthand once, at top level",
  [TP], [("shorthands", f"{TP}:_abstractify")], observe=("rsm.render", "rsm.lint"))
p("C16", "Metadata lands on its own element and on no other",
  "A label, a type or a title given to an element appears on the page as the id, a class or the title of that element only, plain and with handrails. "
  "Adding a type or label to one element changes the classes or id of that one element of the page, and the text of the page not at all.",
  "all manuscripts with metadata on any elements, and all single additions", "tests attach metadata to one element at a time; leaks show on neighbours, parents and children",
  [TP, TR, N], [("metadata of nodes", f"{N}:Node.ingest_dict_as_meta"), ("classes and ids", f"{TR}:AppendNodeTag, _make_tag"), ("classes with handrails", f"{TR}:HandrailsTranslator._hr_from_node")], over=("inputs", "programs"))
p("C17", "The page depends on the manuscript alone",
  "Rendering is a function of the manuscript and the kind of page: manuscripts rendered, linted or refused before, other threads, the process, hash seed, locale, working directory, file or string input, logging options and reuse of the same objects change neither the page nor the messages. "
  "Translating a tree changes neither its shape nor the attributes of its nodes, apart from marks added to their types, nor what it gives next, and neither rendering nor linting writes files.",
  "all manuscripts after all histories of calls, in all environments", "tests render each manuscript once in one process in one order",
  ["rsm/app.py", TP, T, TR, N, "rsm/reader.py"], [("state of the objects", f"{T}:Transformer.__init__, transform"), ("class attributes", N), ("reading files", "rsm/reader.py:Reader.read")],
  over=("histories", "configurations", "inputs", "schedules"), observe=("rsm.render", "rsm.lint"))
p("C18", "The linter finds what it looks for, where it is, and nothing else",
  "The linter reports a manuscript without title, every section without label, and every display outside a paragraph, each exactly once, with the line and column where it starts, and nothing else; it returns the tree of the manuscript unchanged.",
  "all well-formed manuscripts", "tests run the linter on one manuscript",
  [TL, TP], [("rules", f"{TL}:Linter"), ("positions", f"{TP}: start_point, end_point")], observe=("rsm.lint", "the RSM loggers"))
p("C19", "The log says what happened, in each format and at each level",
  "Every message at or above the chosen level is written exactly once, in the chosen format, with its name, level, text and position, and with time stamp and line number of the code exactly if asked for; none below the level is written. "
  "JSON lines are valid JSON, and what is reported does not depend on format or options. A handler that gathers messages holds exactly those of its levels until it is flushed, and then passes each on once, in order.",
  "all manuscripts, levels, formats and options", "tests exercise one level and format at a time, with one message",
  ["rsm/rsmlogger.py", "rsm/app.py"], [("formatters", "rsm/rsmlogger.py:RSMFormatter, JSONFormatter, LintFormatter"), ("levels", "rsm/rsmlogger.py:config_rsm_logger"), ("gathering", "rsm/rsmlogger.py:GatherHandler")], over=("inputs", "configurations"), observe=("standard error",))
p("C20", "Editing the tree keeps it a tree",
  "After any sequence of edits of a manuscript tree (append, prepend, remove, replace, clear, legal or not), each node is a child of its parent exactly once, siblings are in the order the edits imply, and removed or replaced nodes belong to nothing. "
  "An edit that would give a node a second parent or a place where its kind may not stand is refused and leaves the tree as it was.",
  "all sequences of edits over nodes of all classes", "tests perform single edits",
  [N], [("edits", f"{N}:NodeWithChildren.append, prepend, remove, clear, {N}:Node.replace_self, remove_self"), ("legal parents", f"{N}:Node.possible_parents")], over=("histories",), observe=("Node API",))
p("C21", "Questions about the tree are answered as its shape says",
  "Traversal in document order (of everything, by class, by condition), the first and last child of a class, siblings, nearest ancestors, lookup by node id and the S-expression agree with the parents and children of the nodes. "
  "The S-expression with metadata adds, for each node, those keys of its class and base classes that have a value and are not to be ignored, in alphabetical order; the text that stands for a node (repr) names its class, label, parent and children, or its words.",
  "all trees, before and after transformation, and all queries", "tests query small fixed trees",
  [N], [("queries", f"{N}:Node.traverse, first_of_type, last_of_type, prev_sibling, next_sibling, first_ancestor_of_type, get_child_by_id, sexp, metakeys, __repr__")], over=("inputs", "programs"), observe=("Node API",))
p("C22", "Handrails are an addition: without them the page is the plain page",
  "A page with handrails shows the same elements and words, in the same order, nesting, ids and classes, as the plain page of the same manuscript, and the manuscript earns the same messages; only the handrails, the minimap and the source are added.",
  "all sources that give a page", "a relation between two renderings; tests compare each with a fixed string, for a few manuscripts",
  [TR], [("second translator", f"{TR}:HandrailsTranslator")])
p("C23", "Each handrail tells the truth about the element it belongs to",
  "With handrails, the title, authors, headings, paragraphs, theorem-like blocks, proofs, sketches, subproofs, steps, displays and bibliography entries have one handrail each, with all its zones once; its menu names the element as references do, offers its link exactly if the element has an anchor, and offers to collapse exactly what can be collapsed; the info zone shows the number of a step or display, the DOI link of a bibliography entry and the icon an author gave to an element. "
  "The minimap has one dot per entry of the table of contents, in order, sized by level and linked to the same section, and the source is attached verbatim and hidden exactly if asked for.",
  "all well-formed manuscripts", "tests compare a few handrail pages as strings",
  [TR], [("menus and zones", f"{TR}:HandrailsTranslator._hr_menu_zone, _replace_node_with_handrails, _step_handrails"), ("minimap and source", f"{TR}:_make_minimap, _make_source_div")])
p("C24", "Making a site writes a complete website, and nothing else",
  "After a site is made, the output folder has a start page that holds the rendered page and, as its title, the title of the manuscript, every script and style sheet that the tool ships, and a copy of every image of the manuscript, byte for byte, so that everything local the start page asks for is there. "
  "No other file is created, changed or removed, also when a site is made over an older one.",
  "all well-formed manuscripts with any existing images, handrails or not, from a file or a string, into any folder", "tests make one site and look for the existence of a file",
  ["rsm/builder.py", "rsm/writer.py", "rsm/app.py"], [("builder", "rsm/builder.py:FullBuilder"), ("writer", "rsm/writer.py:Writer.write")], over=("inputs", "configurations", "histories"), observe=("rsm.make",))
p("C25", "The command line tools do what the functions of the same name do",
  "Each command, with any options in any order, writes to standard output exactly what the function of the same name returns for the same manuscript and options (nothing for the linter and the maker of sites, or when silent), issues the same messages, writes the same files, and exits with status 0 when the function returns. "
  "Sources come from a file or from the argument itself, each repetition of the verbosity option lowers the log level by one step, and the linter's format is the default only for the linter. When asked to serve a site, make makes it, serves the folder, and makes it again, with the same options, when the source has changed.",
  "all manuscripts, commands and combinations of options", "tests call the command line functions with one or two option sets",
  ["rsm/cli.py", "rsm/app.py"], [("options", "rsm/cli.py:_init_parser, main"), ("entry points", "rsm/cli.py:render, lint, make")], over=("inputs", "configurations"), observe=("rsm.cli",))
H, K = "rsm/static/handrails.js", "rsm/static/keyboard.js"
p("C26", "Clicking handrails hides and shows exactly what it says",
  "After any sequence of clicks on a page with handrails, exactly the content of the collapsed elements is hidden (as the style sheet has it): of a block all but its label, of a step all but its statement, with a note that steps are hidden; \"Collapse all\" affects the steps directly below its proof or step, and expanding brings back all that is not within something else collapsed. "
  "The drawn icons and menu texts say what the next click will do; a menu opens by its dots, closes when the mouse leaves, and alone; \"Copy link\" copies the address of the page with the anchor of that element (or of its section, or none for the title) and says whether that worked, in a notice that goes away by its cross or by itself; disabled entries and clicks elsewhere do nothing.",
  "all well-formed manuscripts and all sequences of clicks", "no test of the repository runs the scripts of the page; errors show in nested proofs, after several clicks",
  [H, "rsm/static/icons.js", TR], [("collapsing", f"{H}:toggleHandrail, collapseAll, getRest"), ("menus and links", f"{H}:setup, copyLink, launchToast"), ("classes the scripts rely on", f"{TR}:HandrailsTranslator")],
  over=("inputs", "histories"), observe=("the page in a browser",))
p("C27", "The keyboard reaches what is visible and does what the mouse does",
  "The keys j and k move the focus to the next and previous link or handrail that is visible, in document order and around the ends; h and l to the next and previous one at the same level, or to the next and previous section; H to the top; the focus never lands on something hidden or within something collapsed, and the window scrolls to have it in its middle (or its top at the top, if it is taller than the window), unless it is close to that or that is against the direction of the key. "
  "On a focused handrail, comma, semicolon and point collapse it, collapse its steps and open or close its menu, exactly if its menu offers that; z brings it to the middle of the window; the arrow keys move through an open menu, around its ends, and Enter does what its active entry says. No key fails on any page, with or without handrails.",
  "all well-formed manuscripts and all sequences of keys and clicks", "no test of the repository runs the scripts of the page",
  [K, H], [("moving", f"{K}:focusUpOrDown, focusPrevOrNext, isFocusable"), ("acting", f"{K}:toggleCollapse, toggleCollapseAll, toggleMenu, menuUpOrDown, executeActiveMenuItem")],
  over=("inputs", "histories"), observe=("the page in a browser",))
S = "rsm/static/"
p("C28", "The page starts up, its tooltips show what is meant, its minimap follows",
  "Each reference, citation and back link has one tooltip showing the words of what it points to, whatever its label: the element itself, of a section the heading and what comes first, of a step the statement, of something within a line all of the line; a link without target is marked and says so. "
  "When the page has loaded, icons are drawn, every algorithm is rendered once, and clicks, keys and tooltips work (the key i opens and closes the one of the link in focus), also if an outside library cannot be loaded; keys only if they are asked for. "
  "The floating minimap is shown exactly while the one of the contents is out of view, and filled up to the last labeled section begun in the upper half of the window; the one of the contents up to the entry under the mouse or in focus; the borders of inset elements are as high as their content.",
  "all well-formed manuscripts, layouts, scroll positions and failures to load", "no test of the repository runs the scripts of the page",
  [S + "tooltips.js", S + "onload.js", S + "minimap.js", S + "icons.js", S + "libraries.js", H], [("tooltips", S + "tooltips.js:createTooltips"), ("start", S + "onload.js:onload"), ("minimap", S + "minimap.js:setup, highlightMinimap"), ("heights", f"{H}:updateHeight")],
  over=("inputs", "histories", "fault_sequences"), observe=("the page in a browser",))
p("C29", "A tree that a program builds or rearranges is as good as one that was written",
  "A manuscript tree built with the node classes, whatever the order of construction and of the edits that put it together, and whether attributes are given to the constructor, assigned or ingested as metadata, has the same S-expression, and gives the same pages, messages and lint, as the tree the parser makes of the same manuscript; so does a copy. "
  "When sections or blocks of parsed trees are removed, exchanged, moved, or taken from one manuscript to another before the transform step, the pages are those of the manuscripts with the same change in their sources. Nodes never share what they were given, and what was given to them does not change.",
  "all manuscripts, all ways of building their trees, all such changes", "tests build a few small trees and look at single attributes",
  [N, T, TR], [("constructors", f"{N}:__init__ of the classes, Node.ingest_dict_as_meta"), ("edits", f"{N}:NodeWithChildren.append, prepend, remove, {N}:Node.replace_self"), ("steps", f"{T}:Transformer.transform, {TR}:Translator.translate")],
  over=("inputs", "programs"), observe=("Node API",))

C = "rsm/static/rsm.css"
p("C30", "With its style sheet, a page shows all it says, as the manuscript asks",
  "Whatever the manuscript, plain or with handrails, in the light and in the dark theme, the style sheet lets each word of the page be seen (in a size and a colour that can be told from what is behind it), except what is of type \"hide\" and the menus and controls of handrails at rest; it adds no words of its own, and relies on no undefined variable. "
  "Items of lists have their numbers or bullets (entries of the contents and of the bibliography none), code and algorithms keep their white space, strong and emphasized text, keywords, links and unknown citations stand out, headings get smaller with their level, and the types tiny to huger change the size of whatever has them, in that order. The controls of a handrail appear when it is pointed at or has the focus.",
  "all well-formed manuscripts, in both themes, with any handrail pointed at", "no test of the repository looks at the style sheet; which rule wins depends on how elements are nested",
  [C, TR, H], [("the cascade", C), ("classes it relies on", f"{TR}:AppendNodeTag, HandrailsTranslator"), ("what the scripts toggle", f"{H}:setup")],
  observe=("the page in a browser",))

D = "docs/source/"
p("C31", "An example in the documentation shows its source and its page",
  "Each example in the documentation is shown as its source, verbatim, followed by the page that rendering this source with handrails gives, marked for embedding, wherever it stands and whatever it says; its handrails work, each within its own example. "
  "One button per example opens the online editor with exactly its source. The pages of the documentation load the style sheet and the scripts of the tool, from files that exist, and start them with the configured path.",
  "all well-formed manuscripts as examples, several on a page, all configurations", "no test of the repository looks at the documentation",
  [D + "rsm_directive.py", D + "_static/openlive.js", TR, H], [("directive", D + "rsm_directive.py:RSMDirective, setup"), ("editor button", D + "_static/openlive.js:addbutton")],
  over=("inputs", "configurations", "histories"), observe=("the documentation in a browser",))

A = "rsm/app.py"
p("C32", "An application runs its steps in order and can be inspected afterwards",
  "An application made by hand (parser, linter, processor, full build) gives, each time it is run, the result, the messages and the files of the function of the same name (render, lint, make) for the source or file as it is then, whatever other applications were made or run in between; the function `make` gives the page it writes. "
  "Afterwards the application holds, by the names of its steps, the source that was read, the tree that was parsed (the very one that was transformed, linted and translated), and the nodes by label, all of this manuscript. "
  "A pipeline that a program puts together calls its tasks in order, each with what the one before gave (a mapping as keywords, a sequence as arguments, nothing for None, anything else as it is), holds the objects of its tasks by name from the moment a task is added until it is taken away, and leaves the list it was made of alone; an application reports errors in the manuscript and gives an empty result. Exactly one source is accepted: a path, or a string.",
  "all manuscripts, all applications in any order of making and running, all sequences of tasks", "tests make each application once, run it once, and look at the result",
  [A, "rsm/reader.py", "rsm/writer.py"], [("steps", f"{A}:Pipeline.run, add_task, pop_task"), ("errors", f"{A}:RSMApp.run"), ("applications", f"{A}:ParserApp, LinterApp, ProcessorApp, FullBuildApp"), ("functions", f"{A}:render, lint, make")],
  over=("inputs", "histories", "configurations"), observe=("rsm.app",))

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w", encoding="utf-8") as f:
        for x in P:
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
