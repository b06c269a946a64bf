"""Writes known-findings.txt."""
import json, os
FIXED = """C24 b177534 make() and FullBuildApp passed log_lineno, handrails and lint to the wrong parameters
C03 34e05c0 paragraph tags were unbalanced around several displays, or displays that are not in a paragraph
C03 91dc751 a tag with custom attributes and manual closing crashed the translator
C02 97b3d3c handrails crashed on authors without name, affiliation or email
C01 c595a89 a bibliography entry without a year crashed the translator
C09 d673d15 in the appendix everything was numbered with letters, which ran out at Z
C01 4d54137 the documented :suppose: and :wlog: constructs crashed
C14 92afb13 code in an unknown language crashed the translator
C09 041cb0f captions of unnumbered figures and tables read "None"
C05 b4a236c text and attribute values were not escaped, so that "a<b" or a title with quotes became markup
C24 48e6cb5 scripts and other sources on the page were taken for images to copy
C24 5e7178a the writer ignored its destination path
C17 28c95e0 files were read in the encoding of the locale
C18 b9412ff linter messages could not be shown in the rsm format (missing end position)
C19 dd1b1d6 the rsm format ignored log_lineno
C02 a260184 malformed metadata and bibtex pairs crashed the parser
C11 ca87a68 content after a subproof failed an assertion instead of being refused
C20 ad081a5 failed or repeated append, prepend and replace_self left the tree inconsistent
C13 aead145 strings with escapes lost their escape characters, and text when split
C13 f363172 escape sequences did not work in titles of blocks and in texts of references
C22 94c7b80 translating with handrails removed text from the tree
C17 dd49262 labels of a previous manuscript leaked into the next one with a reused transformer
C05 3dbac65 the space between inline elements was lost
C06 6cb4af5 the image of a labeled figure had the id of the figure
C06 e962aa2 labels generated for citations collided with those of the author
C07 856bce4 braces and escapes in a reference text crashed references
C04 bf4c454 exercise, problem and porism were shown as theorems
C07 d8781e0 white space around the target of a reference made it unknown
C08 dbb96bf citing a label that is not in the bibliography crashed
C22 2d0c4b9 captions ended in a stray zone of no handrail
C06 abb03c2 the links of entries without label shared one id
C12 5b07f0d a comment at the end of a line joined the words around it
C02 95d4d27 syntax errors in the metadata of a tag were silent
C03 5bbfafa a claimed display was put within the p tag of its paragraph
C03 32504ac the label of a citation of several works was not escaped
C03 6acccea the icon of an element was not escaped
C26 311b8e0 collapsing an element changed the icons of those within it
C26 1cd2373 the link of the abstract was that of the page
C27 f20b71b the key H failed, as did others on a page with nothing to focus
C27 9384784 Enter on Collapse all of a proof collapsed nothing
C27 8385de7 arrow keys acted on closed menus and failed on empty ones
C27 3bed46f the keys j and k did not focus the first element
C27 5eea336 the key ; changed a disabled menu item
C27 b9e215b keys moved the focus to hidden elements
C28 0dd9778 scrolling a page without contents failed
C28 ffbfea0 the minimap did not follow sections with unusual labels
C28 1049b10 focusing a link in the contents of a page without minimap failed
C28 eb7d24a tooltips failed on labels with unusual characters, and so did all after them
C28 bdaa6c9 tooltips of lists, listings, proofs and, with handrails, lemmas were empty
C28 6c5d2d7 only the first algorithm of a page was rendered
C19 49b08a1 make with a log level above WARNING printed warnings
C27 351728e keys scrolled tall elements and elements near the top the wrong way
C25 f124cb8 make --serve failed, or ran another command on a change, if the name of the source had spaces or quotes
C29 6649400 nodes made with the same list of types got each other's classes
C29 81d2e1c ingesting metadata changed the list of types that was given, and nodes shared it
C02 aa1118b a run of some thousand spaces, or a very long line, took minutes or hours (cubic and quadratic time)
C30 ee8b2d0 the style sheet wrote "1" before every entry of the bibliography of a plain page
C31 48f1f33 an example in the documentation whose text mentions class="manuscriptwrapper" was shown with another text
C23 41e4885 a table of contents within a section had no floating minimap on a page with handrails
C32 334ba9c rsm.make() returned nothing, although documented to return the page
C06 34718da a label like cite-0-1 or x-doi occurred twice on a page, if a citation of many items or an item x with a DOI got the same id"""
KNOWN = [dict(property="C07", name="nonum-reference", suite="references", kind="references differ", match="'Section None'",
              case="findings/nonum-reference.json",
              what='a reference without a text of its own to an unnumbered section reads "Section None" (pinned by tests/test_sexp.py and tests/test_reftext.py)')]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "known-findings.txt"), "w", encoding="utf-8") as f:
    for l in FIXED.splitlines():
        prop, rest = l.split(" ", 1)
        f.write(f"fixed: property={prop} {rest}\n")
    for k in KNOWN:
        f.write("known: " + json.dumps(k, ensure_ascii=False) + "\n")
