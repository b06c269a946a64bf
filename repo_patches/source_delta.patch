From b177534f4ac2ac0b53e5185eec3f74a721e18548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:12 +0000
Subject: [PATCH 01/61] fix: pass FullBuildApp options by keyword so that
 log_lineno, handrails and lint reach their targets

---
 rsm/app.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rsm/app.py b/rsm/app.py
index 19c3bee..2d99ec3 100644
--- a/rsm/app.py
+++ b/rsm/app.py
@@ -242,7 +242,14 @@ class FullBuildApp(ProcessorApp):
         run_linter: bool = False,
     ):
         super().__init__(
-            srcpath, plain, loglevel, log_format, log_time, handrails, run_linter
+            srcpath,
+            plain,
+            loglevel,
+            log_format,
+            log_time,
+            log_lineno,
+            handrails=handrails,
+            run_linter=run_linter,
         )
         self.add_task(Task("builder", b := builder.FullBuilder(), b.build))
         self.add_task(Task("writer", w := writer.Writer(), w.write))
@@ -302,6 +309,7 @@ def make(
     return FullBuildApp(
         srcpath=path,
         plain=source,
+        handrails=handrails,
         run_linter=lint,
         loglevel=loglevel,
         log_format=log_format,
-- 
2.43.0


From 34e05c0c3cf5f60c04431e584e8dc1590cf5990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:32 +0000
Subject: [PATCH 02/61] fix: keep paragraph tags balanced around several or
 standalone mathblocks

---
 rsm/translator.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index e487f5d..3a84ffd 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -768,13 +768,12 @@ class Translator:
         )
 
     def visit_mathblock(self, node: nodes.MathBlock) -> EditCommand:
-        assert isinstance(node.parent, nodes.Paragraph)
         return AppendBatchAndDefer(
             [
                 # A paragraph that contains a mathblock cannot _start_ with a mathblock,
                 # so this mathblock must always contain some previous siblings that must
                 # be enclosed in <p> tags.  (See comment in visit_paragraph().)
-                AppendText("</p>"),
+                AppendText(self._close_paragraph_before(node)),
                 # This is the actual tag corresponding to the mathblock.
                 AppendNodeTag(node, "div"),
                 # The contents of a mathblock must be enclosed in '$$' and '$$' due to
@@ -783,13 +782,22 @@ class Translator:
             ]
         )
 
+    def _close_paragraph_before(self, node: nodes.MathBlock) -> str:
+        # Only paragraphs have an open <p> tag.  Mathblocks with other types of parents
+        # (theorems, statements, claimblocks, items...) have nothing to close.
+        if type(node.parent) is not nodes.Paragraph:
+            return ""
+        # From here on there is no open <p> tag, until leave_mathblock() opens another.
+        node.parent._must_close_p_tag = False
+        return "</p>"
+
     def leave_mathblock(self, node: nodes.MathBlock) -> EditCommand:
         # See also the comment in visit_paragraph().
         batch = self.leave_node(node)
 
-        # The paragraph-specific logic only applies when the parent is a BaseParagraph
+        # The paragraph-specific logic only applies when the parent is a Paragraph
         # With grammar changes, MathBlocks can now have other types of parents
-        if not isinstance(node.parent, nodes.BaseParagraph):
+        if type(node.parent) is not nodes.Paragraph:
             return batch
 
         # In case this mathblock is the last child of the paragraph, there is nothing
@@ -1822,7 +1830,7 @@ class HandrailsTranslator(Translator):
             collapse_in_hr=False,
             menu_label="Equation" if node.nonum else node.long_reftext,
         )
-        batch.items.insert(0, AppendText("</p>"))
+        batch.items.insert(0, AppendText(self._close_paragraph_before(node)))
         batch.items.append(AppendTextAndDefer("$$\n", "\n$$"))
         batch.items[1].classes += ["hr-hidden", "hr-offset"]
         return batch
-- 
2.43.0


From 91dc751b39c0925b73ce4a4a013b1f3f26339a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:42 +0000
Subject: [PATCH 03/61] fix: AppendOpenTagManualClose passes its custom
 attributes by keyword

---
 rsm/translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 3a84ffd..2b49679 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -288,7 +288,7 @@ class AppendOpenTagManualClose(AppendText):
         outer = "\n" if self.newline_outer else ""
         inner = "\n" if self.newline_inner else ""
         tag = _make_tag(
-            self.tag, self.id, self.classes, self.is_selectable, *self.custom_attrs
+            self.tag, self.id, self.classes, self.is_selectable, **self.custom_attrs
         )
         return outer + tag + inner + self.content
 
-- 
2.43.0


From 97b3d3c5470789a880927c3ad4b4cc37c18843c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:50 +0000
Subject: [PATCH 04/61] fix: HandrailsTranslator handles authors without name,
 affiliation or email

---
 rsm/translator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 2b49679..5ef01f4 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1652,7 +1652,8 @@ class HandrailsTranslator(Translator):
         hr = self._replace_node_with_handrails(
             node, additional_classes=["hr-hidden"], collapse_in_hr=False
         )
-        hr.items += batch.items[2:-1]
+        if isinstance(batch, EditCommandBatch):  # otherwise, the author is empty
+            hr.items += batch.items[2:-1]
         return hr
 
     def leave_author(self, node: nodes.Author) -> EditCommand:
-- 
2.43.0


From c595a899c7326bd524c2365969ae7e88afb6fd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:58 +0000
Subject: [PATCH 05/61] fix: bibitems without a year are rendered without it
 and with a warning

---
 rsm/translator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 5ef01f4..d01efbf 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1050,8 +1050,8 @@ class Translator:
                 items.append(node.publisher)
             else:
                 logger.warning(f"Bibitem {node.label} has no publisher")
-        if node.year:
-            items.append(node.year)
+        if node.year and node.year != -1:  # -1 is the default value
+            items.append(str(node.year))
         else:
             logger.warning(f"Bibitem {node.label} has no year")
         text = ". ".join([i.strip(".") for i in items]) + "."
-- 
2.43.0


From d673d157115847127ed5aa4ea6a5694a20a352e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:45 +0000
Subject: [PATCH 06/61] fix: number only sections with letters within the
 appendix, without running out of letters

---
 rsm/transformer.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index eee8528..27ab8e9 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -26,7 +26,7 @@ place is of utmost importance.
 
 import logging
 from collections import defaultdict
-from itertools import count
+from itertools import count, product
 from string import ascii_uppercase
 from typing import Generator, Optional, Type
 
@@ -41,6 +41,13 @@ class RSMTransformerError(Exception):
     pass
 
 
+def _appendix_numbers() -> Generator[str, None, None]:
+    """Generate A, B, ..., Z, AA, AB, and so on."""
+    for length in count(start=1):
+        for letters in product(ascii_uppercase, repeat=length):
+            yield "".join(letters)
+
+
 class Transformer:
     """Apply transformations to the abstract syntax tree.
 
@@ -276,7 +283,9 @@ class Transformer:
         within_appendix = False
         for node in self.tree.traverse():
             if isinstance(node, nodes.Appendix):
-                counts[nodes.Manuscript] = defaultdict(lambda: iter(ascii_uppercase))
+                # Only sections are lettered, everything else continues as before.
+                if not within_appendix:
+                    counts[nodes.Manuscript][nodes.Section] = _appendix_numbers()
                 within_appendix = True
                 continue
             if isinstance(node, (nodes.Proof, nodes.Subproof)):
-- 
2.43.0


From 4d541371415dd17198f95692e55d4e15bf1a0c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 07/61] fix: support the documented suppose and wlog constructs

---
 rsm/nodes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsm/nodes.py b/rsm/nodes.py
index 669f1ae..28a8c3a 100644
--- a/rsm/nodes.py
+++ b/rsm/nodes.py
@@ -1186,6 +1186,8 @@ class Construct(NodeWithChildren):
         "claimblock": "⊢",
         "qed": "QED",
         "st": "SUCH THAT",
+        "suppose": "SUPPOSE",
+        "wlog": "WLOG",
     }
 
     def __init__(self, kind: str = "", **kwargs: Any):
-- 
2.43.0


From 92afb13c3cc51c8afda9ccc037dc82def55cae7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:21 +0000
Subject: [PATCH 08/61] fix: code in an unknown language is rendered without
 highlighting instead of crashing

---
 rsm/translator.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index d01efbf..7c2b446 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -117,6 +117,7 @@ from collections import namedtuple
 from typing import Any, Callable, Iterable, Literal, Optional
 
 from icecream import ic
+from pygments.util import ClassNotFound
 
 from . import nodes
 from .util import highlight_code
@@ -822,11 +823,13 @@ class Translator:
 
     def visit_sourcecode(self, node: nodes.SourceCode) -> EditCommand:
         classes = []
+        code = node.text
         if node.lang:
-            classes = ["highlight", node.lang]
-            code = highlight_code(node.text, node.lang)
-        else:
-            code = node.text
+            try:
+                code = highlight_code(node.text, node.lang)
+                classes = ["highlight", node.lang]
+            except ClassNotFound:
+                logger.warning(f'Unknown code language "{node.lang}"')
         return AppendBatchAndDefer(
             [
                 AppendOpenTag(
-- 
2.43.0


From 041cb0f23494ddf26be235d33adf14e449fe1eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:30 +0000
Subject: [PATCH 09/61] fix: captions of unnumbered figures and tables do not
 read "None"

---
 rsm/translator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 7c2b446..1cfb216 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1102,7 +1102,8 @@ class Translator:
                         id_=node.label,
                         classes=[],
                         src=node.path,
-                        alt=f"{node.__class__.__name__} {node.full_number}.",
+                        alt=f"{node.__class__.__name__} {node.full_number or ''}".strip()
+                        + ".",
                         onload=""
                         if node.scale == 1.0
                         else f"this.width*={node.scale};",
@@ -1115,7 +1116,8 @@ class Translator:
         parent = node.parent
         caption = AppendOpenCloseTag(
             tag="span",
-            content=f"{parent.__class__.__name__} {parent.full_number}. ",
+            content=f"{parent.__class__.__name__} {parent.full_number or ''}".strip()
+            + ". ",
             classes=["label"],
             newline_inner=False,
             newline_outer=False,
-- 
2.43.0


From b4a236cb4204e4d13df63ed382575725a3854b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 10/61] fix: escape author text and attribute values that would
 be read as HTML markup

---
 rsm/translator.py | 55 +++++++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 1cfb216..72ebcd9 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -114,6 +114,7 @@ import re
 import textwrap
 from abc import ABC, abstractmethod
 from collections import namedtuple
+from html import escape
 from typing import Any, Callable, Iterable, Literal, Optional
 
 from icecream import ic
@@ -129,6 +130,17 @@ class RSMTranslatorError(Exception):
     pass
 
 
+def _text(value: Any) -> str:
+    """Make author-provided text safe to use as the contents of an HTML element.
+
+    Only those ampersands and angle brackets that a browser would take for the start of
+    a character reference or of a tag are escaped.
+
+    """
+    text = re.sub(r"&(?=[#0-9A-Za-z]|$)", "&amp;", str(value))
+    return re.sub(r"<(?=[A-Za-z/!?]|$)", "&lt;", text)
+
+
 def _make_tag(
     tag: str,
     id_: str,
@@ -139,15 +151,15 @@ def _make_tag(
 ) -> str:
     text = f"<{tag}"
     if id_:
-        text += f' id="{id_}"'
+        text += f' id="{escape(str(id_))}"'
     if classes:
         classes = " ".join(classes)
-        text += f' class="{classes}"'
+        text += f' class="{escape(classes)}"'
     tabindex = 0 if is_selectable else None
     items = []
     if kwargs or tabindex is not None:
         if kwargs:
-            items += [f'{k}="{v}"' for k, v in kwargs.items() if v]
+            items += [f'{k}="{escape(str(v))}"' for k, v in kwargs.items() if v]
         if tabindex is not None:
             items += [f"tabindex={tabindex}"]
     if nodeid is not None:
@@ -581,7 +593,7 @@ class Translator:
         return AppendBatchAndDefer(
             [
                 AppendOpenTag(classes=["node-with-no-class"]),
-                AppendText(str(node) + "\n"),
+                AppendText(_text(node) + "\n"),
             ]
         )
 
@@ -604,7 +616,7 @@ class Translator:
             ]
         )
         if node.title:
-            batch.items.append(AppendHeading(1, node.title))
+            batch.items.append(AppendHeading(1, _text(node.title)))
         return batch
 
     def visit_author(self, node: nodes.Author) -> EditCommand:
@@ -612,7 +624,7 @@ class Translator:
             if node.email:
                 email = (
                     _make_tag("a", id_="", classes="", href=f"mailto:{node.email}")
-                    + node.email
+                    + _text(node.email)
                     + "</a>"
                 )
             else:
@@ -622,8 +634,8 @@ class Translator:
                     AppendNodeTag(node),
                     AppendOpenTagManualClose("div", classes=["paragraph"]),
                     *[
-                        AppendParagraph(str(x))
-                        for x in [node.name, node.affiliation, email]
+                        AppendParagraph(x)
+                        for x in [_text(node.name), _text(node.affiliation), email]
                         if x
                     ],
                     AppendText("</div>"),
@@ -646,11 +658,11 @@ class Translator:
         if node.keywords:
             text = ", ".join(node.keywords)
             batch.items.append(
-                AppendParagraph(f"Keywords: {text}", classes=["keywords"])
+                AppendParagraph(f"Keywords: {_text(text)}", classes=["keywords"])
             )
         if node.msc:
             text = ", ".join(node.msc)
-            batch.items.append(AppendParagraph(f"MSC: {text}", classes=["msc"]))
+            batch.items.append(AppendParagraph(f"MSC: {_text(text)}", classes=["msc"]))
 
         # For documentation: if a visit_* method returns a command with defers = True,
         # then the corresponding leave_* method MUST MUST MUST call leave_node(node) and
@@ -700,7 +712,7 @@ class Translator:
         if node.title:
             items.append(
                 AppendOpenCloseTag(
-                    tag="span", content=f"{node.title}.", classes=["pg-label"]
+                    tag="span", content=f"{_text(node.title)}.", classes=["pg-label"]
                 )
             )
 
@@ -717,7 +729,7 @@ class Translator:
         return AppendBatchAndDefer(
             [
                 AppendNodeTag(node, "section"),
-                AppendHeading(node.level, heading),
+                AppendHeading(node.level, _text(heading)),
             ]
         )
 
@@ -823,7 +835,7 @@ class Translator:
 
     def visit_sourcecode(self, node: nodes.SourceCode) -> EditCommand:
         classes = []
-        code = node.text
+        code = _text(node.text)
         if node.lang:
             try:
                 code = highlight_code(node.text, node.lang)
@@ -862,13 +874,13 @@ class Translator:
         )
 
     def visit_text(self, node: nodes.Text) -> EditCommand:
-        return AppendText(node.text)
+        return AppendText(_text(node.text))
 
     def visit_error(self, node: nodes.Error) -> EditCommand:
         return AppendBatchAndDefer(
             [
                 AppendNodeTag(node, "span", newline_inner=False, newline_outer=False),
-                AppendText(node.text),
+                AppendText(_text(node.text)),
             ]
         )
 
@@ -916,7 +928,7 @@ class Translator:
                 classes=classes + (additional_classes or []),
                 href=href_text,
             )
-            + reftext
+            + _text(reftext)
             + "</a>"
         )
         return tag
@@ -1057,7 +1069,7 @@ class Translator:
             items.append(str(node.year))
         else:
             logger.warning(f"Bibitem {node.label} has no year")
-        text = ". ".join([i.strip(".") for i in items]) + "."
+        text = _text(". ".join([i.strip(".") for i in items]) + ".")
         if node.doi:
             a_tag = _make_tag(
                 "a",
@@ -1250,7 +1262,7 @@ class HandrailsTranslator(Translator):
     def _hr_menu_label(self, label: str) -> str:
         return f"""
   <div class="hr-menu-label">
-    <span class="hr-menu-item-text">{label}</span>
+    <span class="hr-menu-item-text">{_text(label)}</span>
   </div>"""
 
     def _make_menu_item(self, classes: list[str], icon: str, text: str) -> str:
@@ -1582,7 +1594,7 @@ class HandrailsTranslator(Translator):
         )
 
     def _make_source_div(self):
-        return AppendText(text=f'<div class="rsm-source hide">{self.tree.src}</div>')
+        return AppendText(text=f'<div class="rsm-source hide">{_text(self.tree.src)}</div>')
 
     def _make_minimap(
         self, node: nodes.Contents, follow: str, with_ids: bool = False
@@ -1593,10 +1605,11 @@ class HandrailsTranslator(Translator):
         for ref in node.traverse(nodeclass=nodes.Reference):
             cy = 20 + (24 + 8) * num
             r = radii[type(ref.target)]
-            id_ = f"mm-{ref.target.label}"
+            label = escape(str(ref.target.label))
+            id_ = f"mm-{label}"
             if with_ids:
                 circles.append(
-                    f'<a href="#{ref.target.label}" class="reference" tabindex="-1">'
+                    f'<a href="#{label}" class="reference" tabindex="-1">'
                     f'<circle id="{id_}" cx="16" cy="{cy}" r="{r}" data-pos="{cy}" />'
                 )
             else:
-- 
2.43.0


From 48e6cb54cb0190408480e11ecb1457f2b92e3e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:54 +0000
Subject: [PATCH 11/61] fix: only images are taken for the assets required by
 the website

---
 rsm/builder.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsm/builder.py b/rsm/builder.py
index 3c8552f..1c32869 100644
--- a/rsm/builder.py
+++ b/rsm/builder.py
@@ -3,6 +3,7 @@
 import logging
 import re
 from abc import ABC, abstractmethod
+from html import unescape
 from pathlib import Path
 from textwrap import dedent
 from typing import Optional
@@ -45,7 +46,8 @@ class BaseBuilder(ABC):
 
     def find_required_assets(self) -> None:
         self.required_assets = [
-            Path(x) for x in re.findall(r'src="(.*?)"', str(self.body))
+            Path(unescape(x))
+            for x in re.findall(r'<img\b[^<>]*?\bsrc="(.*?)"', str(self.body))
         ]
 
 
@@ -97,7 +99,7 @@ class SingleFileBuilder(BaseBuilder):
         return ""
 
     def _extract_title(self) -> str:
-        mobj = re.search(r"<h1>(.*?)</h1>", self.body)
+        mobj = re.search(r"<h1>(.*?)</h1>", self.body, re.DOTALL)
         if mobj is None:
             return ""
         else:
-- 
2.43.0


From 5e7178ace650b34011c7a9f06d0374470e133271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:02 +0000
Subject: [PATCH 12/61] fix: Writer writes to its destination path

---
 rsm/writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/writer.py b/rsm/writer.py
index 6b53ff3..10ca200 100644
--- a/rsm/writer.py
+++ b/rsm/writer.py
@@ -20,4 +20,4 @@ class Writer:
 
     def write(self, web: WebManuscript) -> None:
         self.web = web
-        copy_fs(web, "./")
+        copy_fs(web, str(self.dstpath))
-- 
2.43.0


From 28c95e0285520cfe61eaadf1c8d961942f564a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:27 +0000
Subject: [PATCH 13/61] fix: read sources as UTF-8, as the parser expects, in
 every locale

---
 rsm/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/reader.py b/rsm/reader.py
index 0c16b0f..7f805e0 100644
--- a/rsm/reader.py
+++ b/rsm/reader.py
@@ -43,6 +43,6 @@ class Reader:
         if not path:
             raise TypeError("Expected path, got None")
         self.path = Path(path)
-        with open(path) as file:
+        with open(path, encoding="utf-8") as file:
             self.src = file.read()
         return self.src
-- 
2.43.0


From b9412ff3fe9776b51120672d0135eda6873a1366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:47 +0000
Subject: [PATCH 14/61] fix: linter messages can be shown in the rsm log format

---
 rsm/linter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsm/linter.py b/rsm/linter.py
index 72be60e..fa9456a 100644
--- a/rsm/linter.py
+++ b/rsm/linter.py
@@ -44,6 +44,8 @@ class Linter:
         return {
             "start_row": node.start_point[0] + 1,
             "start_col": node.start_point[1] + 1,
+            "end_row": node.end_point[0] + 1,
+            "end_col": node.end_point[1] + 1,
         }
 
     def lint_manuscript_title(self) -> None:
-- 
2.43.0


From dd1b1d6e05ffd8210aad500bc084c8895617de20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:55 +0000
Subject: [PATCH 15/61] fix: the rsm log format honours log_lineno

---
 rsm/rsmlogger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/rsmlogger.py b/rsm/rsmlogger.py
index a7a613c..c8b02fd 100644
--- a/rsm/rsmlogger.py
+++ b/rsm/rsmlogger.py
@@ -71,7 +71,7 @@ class RSMFormatter(logging.Formatter):
             + self.COLORS.get(record.levelno, self.grey)
             + self.msgformat
             + (self.point if hasattr(record, "start_row") else "")
-            + self.suffix
+            + (self.suffix if self.log_lineno else "")
         )
         formatter = logging.Formatter(fmt, datefmt="%H:%M:%S")
         return formatter.format(record)
-- 
2.43.0


From a260184d552e6dbb6fe0e7df99242cea728e8c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 16/61] fix: malformed meta and bibtex pairs are reported
 instead of crashing the parser

---
 rsm/tsparser.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index 71bd272..08ceaef 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -331,13 +331,30 @@ def _parse_metakey_bool(cst_key: TSNode, _: TSNode) -> tuple[str, bool]:
     return key, True
 
 
+def _well_formed_children(cst_node: TSNode) -> list[TSNode]:
+    """The named children of *cst_node*, after warning about those with errors."""
+    for c in cst_node.named_children:
+        if c.type == "ERROR":
+            logger.warning(
+                "The CST contains errors.",
+                extra=dict(
+                    start_row=c.start_point[0],
+                    start_col=c.start_point[1],
+                    end_row=c.end_point[0],
+                    end_col=c.end_point[1],
+                ),
+            )
+    return [c for c in cst_node.named_children if c.type not in ["ERROR", "comment"]]
+
+
 def _parse_meta_into_dict(node: TSNode) -> dict[str, Any]:
     pairs = {}
     for pair in [c for c in node.named_children if c.type.endswith("pair")]:
-        if len(pair.named_children) == 1:  # bool meta key
-            cst_key, cst_val = pair.named_children[0], None
+        children = _well_formed_children(pair)
+        if len(children) == 1:  # bool meta key
+            cst_key, cst_val = children[0], None
         else:
-            cst_key, cst_val = pair.named_children
+            cst_key, cst_val = children[:2]
         key, val = globals()[f"_parse_{cst_key.type}"](cst_key, cst_val)
         pairs[key] = val
     return pairs
@@ -471,7 +488,7 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
             bib_node.kind = cst_node.child_by_field_name("kind").text.decode("utf-8")
             bib_node.label = cst_node.child_by_field_name("label").text.decode("utf-8")
             for pair in [c for c in cst_node.named_children if c.type == "bibitempair"]:
-                key, value = pair.named_children
+                key, value = _well_formed_children(pair)[:2]
                 key, value = key.text.decode("utf-8"), value.text.decode("utf-8")
                 setattr(bib_node, key, value)
 
-- 
2.43.0


From ca87a6840812fcbf2761ed475fc2abcc39f933d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 17/61] fix: content after a subproof is diagnosed with a
 transformer error

---
 rsm/transformer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index 27ab8e9..b850d1d 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -270,7 +270,8 @@ class Transformer:
                 subproof = nodes.Subproof()
                 subproof.append(children[split_at_idx:])
             elif isinstance(children[split_at_idx], nodes.Subproof):
-                assert split_at_idx == len(children) - 1
+                if split_at_idx != len(children) - 1:
+                    raise RSMTransformerError("Found content after subproof in step")
                 subproof = children[split_at_idx]
             else:
                 raise RSMTransformerError("How did we get here?")
-- 
2.43.0


From ad081a5a25749f3179d2d165ffda1b6baf45f534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 18/61] fix: failed or repeated append, prepend and
 replace_self leave the tree consistent

---
 rsm/nodes.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/rsm/nodes.py b/rsm/nodes.py
index 28a8c3a..e42c82b 100644
--- a/rsm/nodes.py
+++ b/rsm/nodes.py
@@ -811,14 +811,22 @@ class Node:
         ids = [id(c) for c in self.parent.children]
         index = ids.index(id(self))
         parent = self.parent
+        replacement = [replacement] if isinstance(replacement, Node) else [*replacement]
+        if any(rep.parent and rep is not self for rep in replacement):
+            raise RSMNodeError("Attempting to replace with a node that has a parent")
         self.parent.remove(self)
-        if not isinstance(replacement, Node):
-            for idx, rep in enumerate(replacement):
-                parent._children.insert(index + idx, rep)
+        try:
+            for rep in replacement:
                 rep.parent = parent
-        else:
-            parent._children.insert(index, replacement)
-            replacement.parent = parent
+        except RSMNodeError:
+            # leave the tree as it was
+            for rep in replacement:
+                rep.parent = None
+            replacement = [self]
+            self.parent = parent
+            raise
+        finally:
+            parent._children[index:index] = replacement
 
     def remove_self(self) -> None:
         """Remove this Node from its parent's children.
@@ -940,8 +948,8 @@ class NodeWithChildren(Node):
         elif isinstance(child, Node):
             if child.parent:
                 raise RSMNodeError("Attempting to append child to a new parent")
-            self._children.append(child)
             child.parent = self
+            self._children.append(child)
         else:
             raise TypeError("Can only append a Node or iterable of Nodes as children")
         return self
@@ -956,14 +964,16 @@ class NodeWithChildren(Node):
         :meth:`append`
 
         """
-        if isinstance(child, list):
-            for c in reversed(child):
+        if isinstance(child, Iterable):
+            for c in reversed(list(child)):
                 self.prepend(c)
         elif isinstance(child, Node):
             if child.parent and child.parent is not self:
                 raise RSMNodeError("Attempting to prepend child to a different parent")
-            self._children.insert(0, child)
+            if child.parent is self:
+                self.remove(child)
             child.parent = self
+            self._children.insert(0, child)
         else:
             raise TypeError("Can only prepend a Node or iterable of Nodes as children")
         return self
-- 
2.43.0


From aead1452b2bbd914f7f5f280d7a0f88388222b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:35 +0000
Subject: [PATCH 19/61] fix: EscapedString keeps its escape characters, and
 splits without losing text

---
 rsm/util.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/rsm/util.py b/rsm/util.py
index 61523cb..09b62b3 100644
--- a/rsm/util.py
+++ b/rsm/util.py
@@ -7,7 +7,7 @@ Utilities.
 """
 
 import textwrap
-from typing import Any, Generator, Optional, Union
+from typing import Any, Generator, Iterable, Optional, Union
 
 from pygments import highlight
 from pygments.formatters import HtmlFormatter  # pylint: disable=no-name-in-module
@@ -36,7 +36,7 @@ def highlight_code(source: str, lang: str) -> str:
 
 
 class EscapedString:
-    def __init__(self, src: str = "", chars: Optional[str] = None):
+    def __init__(self, src: str = "", chars: Optional[Iterable[str]] = None):
         self.escape_chars = set() if chars is None else set(chars)
         self._src = str(src)
 
@@ -60,7 +60,7 @@ class EscapedString:
         return ret
 
     def __getitem__(self, _slice: Union[int, slice]) -> "EscapedString":
-        return self.__class__(self._src[_slice])
+        return self.__class__(self._src[_slice], self.escape_chars)
 
     def __add__(self, other: str) -> str:
         return self._src + other
@@ -78,13 +78,13 @@ class EscapedString:
         return self._src.format(*args, **kwargs)
 
     def strip(self, chars: Optional[str] = None, /) -> "EscapedString":
-        return self.__class__(self._src.strip(chars))
+        return self.__class__(self._src.strip(chars), self.escape_chars)
 
     def lstrip(self, chars: Optional[str] = None, /) -> "EscapedString":
-        return self.__class__(self._src.lstrip(chars))
+        return self.__class__(self._src.lstrip(chars), self.escape_chars)
 
     def rstrip(self, chars: Optional[str] = None, /) -> "EscapedString":
-        return self.__class__(self._src.rstrip(chars))
+        return self.__class__(self._src.rstrip(chars), self.escape_chars)
 
     def find(
         self,
@@ -140,7 +140,7 @@ class EscapedString:
             # exception instead), so no need to check for that.
             return index
         while self._src[index - 1] == "\\":
-            index = self._src.find(sub, index + 1, end)
+            index = self._src.index(sub, index + 1, end)
         return index
 
     def rindex(
@@ -160,7 +160,9 @@ class EscapedString:
         self, old: str, new: str, count: int = -1, /, skip_escaped: bool = True
     ) -> "EscapedString":
         if not skip_escaped or old not in self.escape_chars:
-            return self.__class__(self._src.replace(old, new, count))
+            return self.__class__(
+                self._src.replace(old, new, count), self.escape_chars
+            )
         raise Exception("Leo should have implemented this but didn't")
 
     def startswith(
@@ -204,12 +206,14 @@ class EscapedString:
         prev = 0
         curr = 0
         while curr < len(self._src):
-            if self._src[curr] in self.escape_chars and (
-                curr > 0 and self._src[curr - 1] != "\\"
+            if len(runs) == maxsplit:
+                break
+            if self._src[curr] == sep and (
+                curr == 0 or self._src[curr - 1] != "\\"
             ):
-                runs.append(self._src[prev + 1 : curr - 1])
-                prev = curr
+                runs.append(self._src[prev:curr])
+                prev = curr + 1
             curr += 1
-        runs.append(self._src[prev + 1 : curr - 1])
+        runs.append(self._src[prev:])
 
         return runs
-- 
2.43.0


From f36317222eb9fc27abf08911903c0105ade283ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:08 +0000
Subject: [PATCH 20/61] fix: escape sequences work in every title and in the
 text of references

---
 rsm/tsparser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index 08ceaef..11d71c2 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -439,10 +439,12 @@ def _normalize_text(root: TSNode) -> str:
         # Manage escaped characters.
         if isinstance(node, nodes.Text) and not node.asis:
             node.text = EscapedString(node.text, DELIMS).escape()
-        if isinstance(node, nodes.Section):
-            node.title = EscapedString(node.title, DELIMS).escape()
-        if isinstance(node, nodes.Manuscript):
+        if isinstance(node, nodes.Heading):
             node.title = EscapedString(node.title, DELIMS).escape()
+        if isinstance(node, nodes.BaseReference):
+            node.overwrite_reftext = EscapedString(
+                node.overwrite_reftext, DELIMS
+            ).escape()
     
     return ""  # This function modifies nodes in place
 
-- 
2.43.0


From 94c7b808b9451ea2c421894b62cb499b86e59e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:37 +0000
Subject: [PATCH 21/61] fix: translating with handrails does not remove text
 from the manuscript tree

---
 rsm/translator.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 72ebcd9..1f43975 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1811,20 +1811,29 @@ class HandrailsTranslator(Translator):
         batch = AppendBatch(batch.items)
         return batch
 
+    @staticmethod
+    def _is_followed_by_dot(node: nodes.Node | None) -> bool:
+        if not isinstance(node, nodes.Math):
+            return False
+        sib = node.next_sibling()
+        return type(sib) is nodes.Text and sib.text.startswith(".")
+
+    def visit_text(self, node: nodes.Text) -> EditCommand:
+        if node.text.startswith(".") and self._is_followed_by_dot(node.prev_sibling()):
+            return AppendText(_text(node.text[1:]))
+        return super().visit_text(node)
+
     def visit_math(self, node: nodes.Math) -> EditCommand:
         batch = super().visit_math(node)
-        sib = node.next_sibling()
-        if not isinstance(sib, nodes.Text):
-            return batch
-        if not sib.text.startswith("."):
+        if not self._is_followed_by_dot(node):
             return batch
 
         # We reach this branch only if the Math node is immediately followed by Text
         # that starts with a dot "."; in this case, the math and the dot may be
         # separated if the browser's viewport is too narrow, which looks ugly.  The only
         # way to fix it is to wrap the math and the dot in a span, and remove the dot
-        # from the subsequent text.  The span is then dealt with using CSS.
-        node._followed_by_dot = True
+        # from the subsequent text (see visit_text()).  The span is then dealt with using
+        # CSS.
         batch.items.insert(
             0,
             AppendOpenTagManualClose(
@@ -1833,12 +1842,11 @@ class HandrailsTranslator(Translator):
                 newline_outer=False,
             ),
         )
-        sib.text = sib.text[1:]
         return batch
 
     def leave_math(self, node: nodes.Math) -> EditCommand:
         batch = self.leave_node(node)
-        if not getattr(node, "_followed_by_dot", False):
+        if not self._is_followed_by_dot(node):
             return batch
         batch.items.extend([AppendText("<span>.</span>"), AppendText("</span>")])
         return batch
-- 
2.43.0


From dd492625d89baec292f6bb0c9599477d9f451efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 22/61] fix: labels of a previous manuscript do not leak into
 the next transform

---
 rsm/transformer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index b850d1d..9b75586 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -142,6 +142,7 @@ class Transformer:
         """
         logger.info("Transforming...")
         self.tree = tree
+        self.labels_to_nodes = {}
 
         self.collect_labels()
         self.resolve_pending_references()
-- 
2.43.0


From 3dbac6591b8ebb9dff95ea83970272d776888ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:25 +0000
Subject: [PATCH 23/61] fix: keep the space between inline nodes such as math,
 references and citations

---
 rsm/tsparser.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index 11d71c2..843e4b5 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -363,6 +363,16 @@ def _parse_meta_into_dict(node: TSNode) -> dict[str, Any]:
 def _normalize_text(root: TSNode) -> str:
     if root is None:
         return ""
+    inlines = [
+        nodes.Span,
+        nodes.Construct,
+        nodes.Math,
+        nodes.Code,
+        nodes.URL,
+        nodes.PendingReference,
+        nodes.PendingPrev,
+        nodes.PendingCite,
+    ]
     for node in root.traverse():
         # Merge consecutive text nodes (each text node ends at a newline, so consecutive
         # text nodes are just adjacent lines of text and can always be merged).  Also,
@@ -435,6 +445,15 @@ def _normalize_text(root: TSNode) -> str:
         sibling = node.next_sibling()
         if sibling and type(node) in classes and type(sibling) in classes:
             node.replace_self([node, nodes.Text(" ")])
+        # Other inline nodes, such as references, are also separated by a single space
+        # but only if there was some whitespace between them in the source.
+        elif (
+            sibling
+            and type(node) in inlines
+            and type(sibling) in inlines
+            and node.end_point != sibling.start_point
+        ):
+            node.replace_self([node, nodes.Text(" ")])
 
         # Manage escaped characters.
         if isinstance(node, nodes.Text) and not node.asis:
-- 
2.43.0


From 6cb4af57c1240afc7c581e4496e3f327f9a0ee88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:25 +0000
Subject: [PATCH 24/61] fix: a labeled figure yields only one element with its
 label as id

---
 rsm/translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 1f43975..3c314ae 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1111,7 +1111,7 @@ class Translator:
                 AppendText(
                     _make_tag(
                         "img",
-                        id_=node.label,
+                        id_="",  # the label is already the id of the figure
                         classes=[],
                         src=node.path,
                         alt=f"{node.__class__.__name__} {node.full_number or ''}".strip()
-- 
2.43.0


From e962aa25bbb8621a8f936707a4d82c869ea18a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:33 +0000
Subject: [PATCH 25/61] fix: labels generated for citations do not collide with
 those of the author

---
 rsm/transformer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index 9b75586..12447a6 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -212,7 +212,9 @@ class Transformer:
                     for label in pending.targetlabels
                 ]
                 cite = nodes.Cite(targets=targets)
-                cite.label = f"cite-{next(counter)}"
+                while (label := f"cite-{next(counter)}") in self.labels_to_nodes:
+                    pass  # the author already uses this label
+                cite.label = label
                 pending.replace_self(cite)
                 for tgt in targets:
                     tgt.backlinks.append(cite.label)
-- 
2.43.0


From 856bce46a9b7bc10491a9c0335ba5db79a322a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:21 +0000
Subject: [PATCH 26/61] fix: braces and escape sequences in a reftext do not
 crash references

---
 rsm/nodes.py    | 9 +++++++--
 rsm/tsparser.py | 1 +
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/rsm/nodes.py b/rsm/nodes.py
index e42c82b..d94c547 100644
--- a/rsm/nodes.py
+++ b/rsm/nodes.py
@@ -13,6 +13,7 @@ subclasses whose only purpose is to differentiate themselves from others via the
 """
 
 import logging
+import re
 import textwrap
 from collections.abc import Iterable
 from datetime import datetime
@@ -432,8 +433,12 @@ class Node:
 
     @property
     def reftext(self) -> str:
-        return self.reftext_template.format(
-            nodeclass=self.__class__.__name__, number=self.full_number
+        # Only the known placeholders are replaced: authors may use braces freely.
+        values = {"nodeclass": self.__class__.__name__, "number": self.full_number}
+        return re.sub(
+            r"\{(nodeclass|number)\}",
+            lambda match: str(values[match.group(1)]),
+            self.reftext_template,
         ).strip()
 
     def traverse(
diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index 843e4b5..a765da2 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -464,6 +464,7 @@ def _normalize_text(root: TSNode) -> str:
             node.overwrite_reftext = EscapedString(
                 node.overwrite_reftext, DELIMS
             ).escape()
+        node.reftext_template = EscapedString(node.reftext_template, DELIMS).escape()
     
     return ""  # This function modifies nodes in place
 
-- 
2.43.0


From bf4c4541f52a17bf4dfa1a31301cadd6541d8a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:22 +0000
Subject: [PATCH 27/61] fix: exercise, problem and porism are not rendered as
 theorems

---
 rsm/tsparser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index a765da2..bb0c6d5 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -257,6 +257,7 @@ CST_TYPE_TO_AST_TYPE: dict[str, Callable] = {
     "algorithm": nodes.Algorithm,
     "author": nodes.Author,
     "enumerate": nodes.Enumerate,
+    "exercise": nodes.Exercise,
     "cite": nodes.PendingCite,
     "code": nodes.Code,
     "codeblock": nodes.CodeBlock,
@@ -275,10 +276,12 @@ CST_TYPE_TO_AST_TYPE: dict[str, Callable] = {
     "mathblock": nodes.MathBlock,
     "note": nodes.Note,
     "paragraph": nodes.Paragraph,
+    "porism": nodes.Porism,
     "prev": nodes.PendingPrev,
     "prev2": nodes.PendingPrev,
     "prev3": nodes.PendingPrev,
     "previous": nodes.PendingPrev,
+    "problem": nodes.Problem,
     "proof": nodes.Proof,
     "proposition": nodes.Proposition,
     "ref": nodes.PendingReference,
@@ -587,6 +590,9 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
         elif cst_node.type in ["block", "inline"]:
             tag = cst_node.child_by_field_name("tag")
             ast_node_type = tag.type
+            if ast_node_type == "theorem":
+                # the grammar gives the type "theorem" to some of the other tags as well
+                ast_node_type = tag.text.decode("utf-8").strip(":")
             skip_these_ids.add(tag.id)
 
         else:
-- 
2.43.0


From d8781e0a04a68c1b05c5faa72ef3ffc76cd27b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:42 +0000
Subject: [PATCH 28/61] fix: white space around the target and the text of a
 reference is not part of them

---
 rsm/tsparser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index bb0c6d5..341c48a 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -661,12 +661,15 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
 
         if ast_node_type in ["ref", "previous", "url"]:
             target_node = cst_node.named_children[1]
-            ast_node.target = target_node.text.decode("utf-8")
+            ast_node.target = target_node.text.decode("utf-8").strip()
             skip_these_ids.add(target_node.id)
 
             if len(cst_node.named_children) > 2:
                 reftext_node = cst_node.named_children[2]
-                ast_node.overwrite_reftext = reftext_node.text.decode("utf-8")
+                reftext = reftext_node.text.decode("utf-8")
+                ast_node.overwrite_reftext = (
+                    reftext if ast_node_type == "url" else reftext.strip()
+                )
                 skip_these_ids.add(reftext_node.id)
 
         if ast_node_type.startswith("prev") and ast_node_type != "previous":
-- 
2.43.0


From dbb96bf23b139c90587505c09f783922a8fdfb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:47 +0000
Subject: [PATCH 29/61] fix: citing a label that is not in the bibliography
 does not crash

---
 rsm/transformer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index 12447a6..3e91603 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -217,7 +217,9 @@ class Transformer:
                 cite.label = label
                 pending.replace_self(cite)
                 for tgt in targets:
-                    tgt.backlinks.append(cite.label)
+                    # the label may belong to a node other than a bibitem
+                    if isinstance(tgt, (nodes.Bibitem, nodes.UnknownBibitem)):
+                        tgt.backlinks.append(cite.label)
             elif isinstance(pending, nodes.PendingPrev):
                 try:
                     step = pending.first_ancestor_of_type(nodes.Step)
-- 
2.43.0


From 2d0c4b98a0a94098687d16b2b2b12264d74cf047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:10 +0000
Subject: [PATCH 30/61] fix: captions do not end in an info zone that belongs
 to no handrail

---
 rsm/translator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsm/translator.py b/rsm/translator.py
index 3c314ae..7cd3527 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1740,6 +1740,8 @@ class HandrailsTranslator(Translator):
         # then the corresponding leave_* method MUST MUST MUST call leave_node(node) and
         # add it to the returned batch!!!
         batch = super().leave_paragraph(node)
+        if isinstance(node, nodes.Caption):  # captions have no handrail
+            return batch
         batch.items.insert(-1, self._hr_info_zone_icon(getattr(node, "icon", None)))
         return batch
 
-- 
2.43.0


From abb03c2dff3a53f6b292dd94ba4fcc0104c0ced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:13 +0000
Subject: [PATCH 31/61] fix: the links of bibliography entries without a label
 do not share an id

---
 rsm/translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 7cd3527..9cbf368 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1073,7 +1073,7 @@ class Translator:
         if node.doi:
             a_tag = _make_tag(
                 "a",
-                id_=f"{node.label}-doi",
+                id_=f"{node.label}-doi" if node.label else "",
                 classes=["bibitem-doi"],
                 href=f"https://doi.org/{node.doi}",
                 target="_blank",
-- 
2.43.0


From 5b07f0dcd008b08877d78cb88b59a1ff037b90ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:40 +0000
Subject: [PATCH 32/61] fix: a comment at the end of a line does not join the
 words around it

---
 rsm/tsparser.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index 341c48a..c649aaf 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -32,7 +32,7 @@ import re
 import sys
 from itertools import groupby
 from pathlib import Path
-from typing import Any, Callable, Optional, Union
+from typing import Any, Callable, Literal, Optional, Union
 
 import tree_sitter
 import tree_sitter_rsm
@@ -363,6 +363,14 @@ def _parse_meta_into_dict(node: TSNode) -> dict[str, Any]:
     return pairs
 
 
+def _sibling(cst_node: TSNode, which: Literal["prev", "next"]) -> Optional[TSNode]:
+    """The sibling before or after a CST node; comments are not part of the text."""
+    sibling = getattr(cst_node, f"{which}_sibling")
+    while sibling and sibling.type == "comment":
+        sibling = getattr(sibling, f"{which}_sibling")
+    return sibling
+
+
 def _normalize_text(root: TSNode) -> str:
     if root is None:
         return ""
@@ -687,12 +695,12 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
 
         # If a text node ends in a newline (i.e. if the next sibling is in a new row),
         # then we assume the user means to leave a space in between them...
-        if ast_node_type == "text" and (sibling := cst_node.next_sibling):
+        if ast_node_type == "text" and (sibling := _sibling(cst_node, "next")):
             my_row, sib_row = cst_node.end_point[0], sibling.start_point[0]
             if sib_row > my_row:
                 ast_node.text = ast_node.text + " "
         # ...and same thing for text that starts one line after the previous sibling.
-        if ast_node_type == "text" and (sibling := cst_node.prev_sibling):
+        if ast_node_type == "text" and (sibling := _sibling(cst_node, "prev")):
             my_row, sib_row = cst_node.start_point[0], sibling.end_point[0]
             if my_row > sib_row:
                 ast_node.text = " " + ast_node.text
-- 
2.43.0


From 95d4d271d286dc7bb0c36e1d13f73d0ccac8f51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:21 +0000
Subject: [PATCH 33/61] fix: syntax errors in the metadata of a tag are
 reported

---
 rsm/tsparser.py | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index c649aaf..a3f190e 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -363,6 +363,20 @@ def _parse_meta_into_dict(node: TSNode) -> dict[str, Any]:
     return pairs
 
 
+def _warn_error(cst_node: TSNode) -> None:
+    start_row, start_col = cst_node.start_point
+    end_row, end_col = cst_node.end_point
+    logger.warning(
+        "The CST contains errors.",
+        extra=dict(
+            start_row=start_row,
+            start_col=start_col,
+            end_row=end_row,
+            end_col=end_col,
+        ),
+    )
+
+
 def _sibling(cst_node: TSNode, which: Literal["prev", "next"]) -> Optional[TSNode]:
     """The sibling before or after a CST node; comments are not part of the text."""
     sibling = getattr(cst_node, f"{which}_sibling")
@@ -483,6 +497,7 @@ def _normalize_text(root: TSNode) -> str:
 def _abstractify(cst: TSTree) -> nodes.Manuscript:
     ast_root_node = None
     bibliography_node = None
+    reported_ids: set[int] = set()
     stack = [(None, cst.root_node)]
     while stack:
         parent, cst_node = stack.pop()
@@ -513,6 +528,7 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
             )
 
             for c in [c for c in cst_node.named_children if c.type == "ERROR"]:
+                reported_ids.add(c.id)
                 logger.warning(msg=f"Bibitem at {(c.start_point)} has an error")
 
             continue
@@ -619,15 +635,8 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
         elif ast_node_type == "ERROR":
             start_row, start_col = cst_node.start_point
             end_row, end_col = cst_node.end_point
-            logger.warning(
-                "The CST contains errors.",
-                extra=dict(
-                    start_row=start_row,
-                    start_col=start_col,
-                    end_row=end_row,
-                    end_col=end_col,
-                ),
-            )
+            _warn_error(cst_node)
+            reported_ids.add(cst_node.id)
             ast_node = nodes.Error(
                 f"[CST error at ({start_row}, {start_col}) - ({end_row}, {end_col})]",
                 start_point=cst_node.start_point,
@@ -718,5 +727,15 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
             ]
         )
 
+    # Errors in places that are not pushed, such as the metadata of a tag, do not have a
+    # node in the AST, but the user must still hear about them.
+    stack = [cst.root_node]
+    while stack:
+        cst_node = stack.pop()
+        if cst_node.type != "ERROR":
+            stack += reversed([c for c in cst_node.children if c.has_error])
+        elif cst_node.id not in reported_ids:
+            _warn_error(cst_node)
+
     _normalize_text(ast_root_node)
     return ast_root_node
-- 
2.43.0


From 5bbfafa4c42b714d8f257e8965272b645fe25238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:47 +0000
Subject: [PATCH 34/61] fix: a claim block does not end up within the p tag of
 its paragraph

---
 rsm/translator.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 9cbf368..4e83cfd 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -702,7 +702,7 @@ class Translator:
         #
         # A paragraph cannot start with a mathblock.
         items: list[EditCommand] = [AppendNodeTag(node, "div")]  #
-        if node.first_of_type(nodes.MathBlock):
+        if node.first_of_type((nodes.MathBlock, nodes.ClaimBlock)):
             items.append(AppendOpenTagManualClose(tag="p", newline_inner=False))
         else:
             items.append(AppendOpenTag(tag="p", newline_inner=False))
@@ -795,7 +795,7 @@ class Translator:
             ]
         )
 
-    def _close_paragraph_before(self, node: nodes.MathBlock) -> str:
+    def _close_paragraph_before(self, node: nodes.MathBlock | nodes.ClaimBlock) -> str:
         # Only paragraphs have an open <p> tag.  Mathblocks with other types of parents
         # (theorems, statements, claimblocks, items...) have nothing to close.
         if type(node.parent) is not nodes.Paragraph:
@@ -805,6 +805,11 @@ class Translator:
         return "</p>"
 
     def leave_mathblock(self, node: nodes.MathBlock) -> EditCommand:
+        return self._leave_block_within_paragraph(node)
+
+    def _leave_block_within_paragraph(
+        self, node: nodes.MathBlock | nodes.ClaimBlock
+    ) -> EditCommand:
         # See also the comment in visit_paragraph().
         batch = self.leave_node(node)
 
@@ -944,7 +949,13 @@ class Translator:
         )
 
     def visit_claimblock(self, node: nodes.ClaimBlock) -> EditCommand:
-        return AppendNodeTag(node)
+        # A <p> tag cannot contain the <div> tag of a claimblock.
+        return AppendBatchAndDefer(
+            [AppendText(self._close_paragraph_before(node)), AppendNodeTag(node)]
+        )
+
+    def leave_claimblock(self, node: nodes.ClaimBlock) -> EditCommand:
+        return self._leave_block_within_paragraph(node)
 
     def _make_title_node(
         self, label: str, desc: str = "", types: list = ["hr-label"]
-- 
2.43.0


From 32504ac00ba7fe114ee5782b198f48a438f57501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:40 +0000
Subject: [PATCH 35/61] fix: the label of a citation of several works is
 escaped

---
 rsm/translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 4e83cfd..08d9aa7 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1050,7 +1050,7 @@ class Translator:
                 for idx, t in enumerate(node.targets)
             ]
             text = ", ".join(tags)
-            text = f'<span id="{node.label}">{text}</span>'
+            text = f'<span id="{escape(str(node.label))}">{text}</span>'
         return AppendText(f"[{text}]")
 
     def visit_bibliography(self, node: nodes.Bibliography) -> EditCommand:
-- 
2.43.0


From 6accceaee692029cdc4232f170ca34eff290408f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:58 +0000
Subject: [PATCH 36/61] fix: escape the icon of an element with handrails

---
 rsm/translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 08d9aa7..da4b514 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1404,7 +1404,7 @@ class HandrailsTranslator(Translator):
         hr_info_end = "</div>"
         if icon is not None:
             hr_info_middle = f"""
-                <div class="icon {icon}">
+                <div class="icon {escape(str(icon))}">
                 </div>
                 """
         return AppendOpenCloseTag(
-- 
2.43.0


From 311b8e0160494278f5904b7e21e3cf8b2e538aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:42 +0000
Subject: [PATCH 37/61] fix: collapsing an element changed the icons of those
 within it

---
 rsm/static/handrails.js | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/rsm/static/handrails.js b/rsm/static/handrails.js
index 8b584ff..25805c9 100644
--- a/rsm/static/handrails.js
+++ b/rsm/static/handrails.js
@@ -71,7 +71,7 @@ function openHandrail(hr) {
   hr.classList.remove("hr-collapsed");
   const rest = getRest(hr);
   rest.forEach(el => { el.classList.remove("hide"); });
-  const icon = hr.querySelector("& .icon.expand");
+  const icon = ownIcon(hr, "expand");
   if (!icon) return;
   icon.classList.remove("expand");
   icon.classList.add("collapse");
@@ -89,7 +89,7 @@ function closeHandrail(hr) {
   hr.classList.add("hr-collapsed");
   const rest = getRest(hr);
   rest.forEach(el => { el.classList.add("hide"); });
-  const icon = hr.querySelector("& .icon.collapse");
+  const icon = ownIcon(hr, "collapse");
   if (!icon) return;
   icon.classList.remove("collapse");
   icon.classList.add("expand");
@@ -103,6 +103,12 @@ function closeHandrail(hr) {
 }
 
 
+// The icon of a control of this handrail, not of one within its content
+function ownIcon(hr, name) {
+  return hr.querySelector(`& > .hr-collapse-zone .icon.${name}, & > .hr-menu-zone .icon.${name}`);
+}
+
+
 function getRest(hr) {
   let rest;
   if (hr.classList.contains("hr-labeled")) {
@@ -125,7 +131,7 @@ export function collapseAll(target, withinSubproof = true) {
   }
 
   const hr = target.closest(".hr");
-  const ex_icon = hr.querySelector("& .icon.expand-all");
+  const ex_icon = ownIcon(hr, "expand-all");
   if (ex_icon) {
     hr.querySelectorAll(qry).forEach(st => openHandrail(st));
     ex_icon.classList.remove("expand-all");
@@ -142,7 +148,7 @@ export function collapseAll(target, withinSubproof = true) {
     return;
   }
 
-  const co_icon = hr.querySelector("& .icon.collapse-all");
+  const co_icon = ownIcon(hr, "collapse-all");
   if (co_icon) {
     hr.querySelectorAll(qry).forEach(st => closeHandrail(st));
     co_icon.classList.remove("collapse-all");
-- 
2.43.0


From 1cd2373039893fa1c0b0132913252be2613a0170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:42 +0000
Subject: [PATCH 38/61] fix: the link of the abstract was that of the page

---
 rsm/static/handrails.js | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsm/static/handrails.js b/rsm/static/handrails.js
index 25805c9..33fe3dd 100644
--- a/rsm/static/handrails.js
+++ b/rsm/static/handrails.js
@@ -175,9 +175,9 @@ async function copyLink(target) {
   if (!hr.classList.contains("heading")) {
     anchor = hr.id;
   } else {
-    const section = hr.closest("section");
-    if (!section.classList.contains("level-1")) {
-      anchor = section.id;
+    const parent = hr.parentElement;  // a section, or the abstract
+    if (!parent.classList.contains("level-1")) {
+      anchor = parent.id;
     } else {
       needs_anchor = false;
     }
-- 
2.43.0


From f20b71bc6359312b7d715f69c39523ed465add03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:42 +0000
Subject: [PATCH 39/61] fix: the key H failed, as did others on a page with
 nothing to focus

---
 rsm/static/keyboard.js | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index b669d10..6b09f12 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -25,7 +25,7 @@ export function setup(root) {
 
   // Navigation: back to top
   root.addEventListener('keydown', (event) => {
-    if (event.key == "H") { event.stopPropagation(); focusTop(); };
+    if (event.key == "H") { event.stopPropagation(); focusTop(root); };
   });
 
   // Basic actions on the currently focused element
@@ -79,6 +79,7 @@ export function setup(root) {
 
 function focusTop(root) {
   const focusable = getFocusableElements(root);
+  if (!focusable.length) return;
   focusable[0].focus();
   scrollToMiddle(focusable[0], "up");
 }
@@ -216,6 +217,7 @@ function focusUpOrDown(direction, root) {
 
 function focusPrevOrNext(direction, root) {
   const focusableElements = getFocusableElements(root);
+  if (!focusableElements.length) return;
   let index = focusableElements.indexOf(document.activeElement);
   console.log('index of current focused element:', index);
   if (index !== -1) {
-- 
2.43.0


From 9384784c3cb016f9bfa88474adfb8945a728fb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:42 +0000
Subject: [PATCH 40/61] fix: Enter on Collapse all of a proof collapsed nothing

---
 rsm/static/keyboard.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index 6b09f12..2a6f8c5 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -109,7 +109,7 @@ function executeActiveMenuItem(el) {
       toggleHandrail(el);
       break;
     case "collapse-steps":
-      collapseAll(el);
+      collapseAll(el, el.classList.contains("step"));
       break;
     case true:
       console.log($`unknown item class: ${cls[0]}`);
-- 
2.43.0


From 8385de7b7e99605b85192aa29e471703dabaf77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:42 +0000
Subject: [PATCH 41/61] fix: arrow keys acted on closed menus and failed on
 empty ones

---
 rsm/static/keyboard.js | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index 2a6f8c5..be32d62 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -119,7 +119,7 @@ function executeActiveMenuItem(el) {
 
 function menuUpOrDown(el, direction) {
   const menu = el.querySelector("& > .hr-menu-zone");
-  if (!getComputedStyle(menu).display == "none") return;
+  if (!menu || getComputedStyle(menu).display == "none") return;
 
   const qry = `
       & > .hr-menu > .hr-menu-item:hover,
@@ -130,6 +130,8 @@ function menuUpOrDown(el, direction) {
   const currentItem = menu.querySelector(qry);
   const allItems = Array.from(menu.querySelectorAll("& > .hr-menu > .hr-menu-item"));
 
+  if (!allItems.length) return;
+
   let index = allItems.indexOf(currentItem);
   if (index == -1) index = 0;
 
-- 
2.43.0


From 3bed46f031a9a6c6213260f6c2b886d9fac1d1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:42 +0000
Subject: [PATCH 42/61] fix: the keys j and k did not focus the first element

---
 rsm/static/keyboard.js | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index be32d62..3562d1d 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -154,6 +154,8 @@ function focusUpOrDown(direction, root) {
 
   // If not focused on anything, just focus the top element.
   if (index == -1) {
+    if (!focusableElements.length) return;
+    focusableElements[0].focus();
     maybeScrollToMiddle(focusableElements[0], direction);
     return;
   }
-- 
2.43.0


From 5eea33694c73248601440f32e962f08387265ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:42 +0000
Subject: [PATCH 43/61] fix: the key ; changed a disabled menu item

---
 rsm/static/keyboard.js | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index 3562d1d..586a720 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -268,8 +268,7 @@ function toggleCollapse(el) {
 function toggleCollapseAll(el) {
   if (!el.classList.contains("hr")) return;
   const collAll = el.querySelector(`
-        & > .hr-menu-zone .collapse-all:not(.disabled),
-        & > .hr-menu-zone .expand-all:not(.disabled)
+        & > .hr-menu-zone .collapse-steps:not(.disabled)
     `);
   const withinSubproof = el.classList.contains("step");
   if (collAll) collapseAll(el, withinSubproof);
-- 
2.43.0


From b9e215b8262216254b15355b214f7c4a68e2b299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:42 +0000
Subject: [PATCH 44/61] fix: keys moved the focus to hidden elements

---
 rsm/static/keyboard.js | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index 586a720..559c6e5 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -289,9 +289,9 @@ function toggleMenu(el) {
 
 
 function isFocusable(el) {
-  if (el.classList.contains("hr-collapsed") && !el.classList.contains("hide")) return true;
-  if (el.closest(".hr-collapsed") || el.closest(".hide")) return false;
-  return true;
+  if (el.closest(".hide")) return false;
+  // a collapsed element can be focused, what is left of its content cannot
+  return !el.parentElement.closest(".hr-collapsed");
 }
 
 
-- 
2.43.0


From 0dd9778cacece89209a03c934f97915db56fd0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:42 +0000
Subject: [PATCH 45/61] fix: scrolling a page without contents failed

---
 rsm/static/minimap.js | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsm/static/minimap.js b/rsm/static/minimap.js
index 491963e..0feabbe 100644
--- a/rsm/static/minimap.js
+++ b/rsm/static/minimap.js
@@ -20,6 +20,7 @@ export function setup() {
   window.addEventListener('scroll', () => {
     const toc_mm = document.querySelector(".toc-wrapper > .minimap");
     const float_mm = document.querySelector(".float-minimap-wrapper > .minimap");
+    if (!toc_mm || !float_mm) return;
     if (withinView(toc_mm, false)) {
       float_mm.classList.add("hide");
     } else {
-- 
2.43.0


From ffbfea0c4a457f123edfd501c9dd1b37a8df4f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:42 +0000
Subject: [PATCH 46/61] fix: the minimap did not follow sections with unusual
 labels

---
 rsm/static/minimap.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/static/minimap.js b/rsm/static/minimap.js
index 0feabbe..6686731 100644
--- a/rsm/static/minimap.js
+++ b/rsm/static/minimap.js
@@ -37,7 +37,7 @@ export function setup() {
     if (isHidden) return;
 
     const lastInViewport = sections.findLast(sec => withinView(sec, true));
-    const circle = document.querySelector(`#mm-${lastInViewport?.id}`)
+    const circle = document.getElementById(`mm-${lastInViewport?.id}`)
     let percent;
     if (circle) {
       const circle_rect = circle.getBoundingClientRect();
-- 
2.43.0


From 1049b100033327d3152e1b7b08af8e1bb86644ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:43 +0000
Subject: [PATCH 47/61] fix: focusing a link in the contents of a page without
 minimap failed

---
 rsm/static/minimap.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsm/static/minimap.js b/rsm/static/minimap.js
index 6686731..c41ecc4 100644
--- a/rsm/static/minimap.js
+++ b/rsm/static/minimap.js
@@ -64,6 +64,6 @@ function withinView(el, top = true) {
 
 
 function highlightMinimap(percent, name) {
-  document.getElementById(`stop-follow-${name}-1`).setAttribute("offset", `${percent}%`);
-  document.getElementById(`stop-follow-${name}-2`).setAttribute("offset", `${percent}%`);
+  document.getElementById(`stop-follow-${name}-1`)?.setAttribute("offset", `${percent}%`);
+  document.getElementById(`stop-follow-${name}-2`)?.setAttribute("offset", `${percent}%`);
 }
-- 
2.43.0


From eb7d24a747776b7d4cf8b5c8cb9732f911b27615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:34 +0000
Subject: [PATCH 48/61] fix: tooltips failed on labels with unusual characters,
 and so did all after them

---
 rsm/static/tooltips.js | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rsm/static/tooltips.js b/rsm/static/tooltips.js
index b63294b..b39e364 100644
--- a/rsm/static/tooltips.js
+++ b/rsm/static/tooltips.js
@@ -27,10 +27,6 @@ export function createTooltips() {
       }
       let content = "";
 
-      // escape '.' since it gets confused with a class
-      target = target.replaceAll(".", "\\.");
-      // escape ':' since it gets confused with the protocol
-      target = target.replaceAll(":", "\\:");
       if (target == "#") {
         content = '<span class="error">target node has no label</span>';
         setTooltipContent(instance, content);
@@ -38,9 +34,11 @@ export function createTooltips() {
         return;
       };
 
+      // not a selector, where some characters of a label have another meaning
+      target = document.getElementById(target.slice(1));
       let tag = $(target).prop('tagName');
 
-      if (!$(target)[0]) {
+      if (!target) {
         // console.error(`unknown target ${target}, tooltip cannot be created`);
         return;
       }
-- 
2.43.0


From bdaa6c9d2e3ad0deb95355885ca62ac2fdf344e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:49 +0000
Subject: [PATCH 49/61] fix: tooltips of lists, listings, proofs and, with
 handrails, lemmas were empty

---
 rsm/static/tooltips.js | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/rsm/static/tooltips.js b/rsm/static/tooltips.js
index b39e364..89af862 100644
--- a/rsm/static/tooltips.js
+++ b/rsm/static/tooltips.js
@@ -58,7 +58,7 @@ export function createTooltips() {
         content = `<div>${content}</div>`;
       } else if (tag == "DT") {
         content = $(target).next().html();
-      } else if (tag == "TABLE") {
+      } else if (["TABLE", "UL", "OL"].includes(tag)) {
         content = $(target)[0].outerHTML;
       } else if (tag == "SECTION") {
         clone = $(target).clone();
@@ -80,13 +80,10 @@ export function createTooltips() {
           case Array.from(classes).filter(cls => ["math", "algorithm"].includes(cls)).length > 0:
             content = $(target).html();
             break;
-          case Array.from(classes).filter(cls => ["paragraph", "mathblock", "theorem", "proposition", "remark", "bibitem"].includes(cls)).length > 0:
+          case true:
             clone = $(target).clone();
             stripHandrail(clone);
             content = $(clone).html();
-            break;
-          case true:
-            console.log(`tooltip target DIV with unknown class: ${classes}`)
         }
       } else {
         console.log(`tooltip target with unknown tag ${tag}`);
-- 
2.43.0


From 6c5d2d76b63d547c773bba0a7c76755e852d7041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:49 +0000
Subject: [PATCH 50/61] fix: only the first algorithm of a page was rendered

---
 rsm/static/onload.js | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsm/static/onload.js b/rsm/static/onload.js
index 5c6071a..315e44a 100644
--- a/rsm/static/onload.js
+++ b/rsm/static/onload.js
@@ -48,12 +48,12 @@ export async function onload(root = null, { path = "/static/", keys = true } = {
       await libs.loadPseudocode();
 
       const elements = document.querySelectorAll("pre.pseudocode");
-      if (elements.length) {
-        pseudocode.renderElement(elements[0], {
+      elements.forEach(el => {
+        pseudocode.renderElement(el, {
           lineNumber: true,
           noEnd: true,
         });
-      }
+      });
     } catch (err) {
       console.error("Loading pseudocode FAILED!", err);
     }
-- 
2.43.0


From 49b08a1845dfca7e9e1c1ded9f5539c2e730af84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:22 +0000
Subject: [PATCH 51/61] fix: a log level above WARNING holds for the output of
 make too

---
 rsm/rsmlogger.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rsm/rsmlogger.py b/rsm/rsmlogger.py
index c8b02fd..1d364b1 100644
--- a/rsm/rsmlogger.py
+++ b/rsm/rsmlogger.py
@@ -179,5 +179,4 @@ def _set_level(level: int) -> None:
     level = max(level, logging.DEBUG)
     logger.setLevel(level)
     for h in logger.handlers:
-        if h.level > level:
-            h.setLevel(level)
+        h.setLevel(level)
-- 
2.43.0


From 351728efd1202d7ecbbb850fb9fa94694bcf1a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:16 +0000
Subject: [PATCH 52/61] fix: keys scrolled tall elements and elements near the
 top the wrong way

---
 rsm/static/keyboard.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index 559c6e5..8b92333 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -321,11 +321,11 @@ function maybeScrollToMiddle(element, direction) {
   let scrollAmount;
   if (elementHeight > viewportHeight) {
     // element taller than viewport: just align its top with the top of the viewport
-    scrollAmount = -elementTop;
+    scrollAmount = elementTop;
   } else {
     // If scrolling would push the element's top above the viewport,
     // limit the scroll to align the top of the element with the top of the viewport
-    if (elementTop + offset < 0) scrollAmount = -elementTop;
+    if (elementTop - offset < 0) scrollAmount = elementTop;
     // Otherwise, scroll to center the element (if far enough from center)
     else if (farEnoughFromCenter) scrollAmount = offset;
     else return;
-- 
2.43.0


From f124cb8b59f01fdde1893d8c335b73fe15a472cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:51 +0000
Subject: [PATCH 53/61] fix: --serve runs the command again with its arguments
 as they were given

---
 rsm/cli.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rsm/cli.py b/rsm/cli.py
index f3a68df..0708bc6 100644
--- a/rsm/cli.py
+++ b/rsm/cli.py
@@ -123,8 +123,7 @@ def make() -> int:
     args = parser.parse_args()
 
     if args.serve:
-        other_args = [a for a in sys.argv if a != "--serve"]
-        cmd = " ".join(other_args)
+        cmd = [a for a in sys.argv if a != "--serve"]
         server = livereload.Server()
         server.watch(args.src, livereload.shell(cmd))
         main(parser, app.make, args)
-- 
2.43.0


From 6649400ebd60cdd1b7f10b56a683392279e4eb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:20 +0000
Subject: [PATCH 54/61] fix: nodes given the same list of types no longer share
 it

---
 rsm/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/nodes.py b/rsm/nodes.py
index d94c547..6114452 100644
--- a/rsm/nodes.py
+++ b/rsm/nodes.py
@@ -178,7 +178,7 @@ class Node:
         """Node id - always exists (unlike label), automatically assigned, unique within the tree."""
         self.label: str = label
         """Unique identifier."""
-        self.types: list[str] = types or []
+        self.types: list[str] = list(types or [])
         """Types of this node."""
         self.handrail_depth = 0
         """The number of ancestors of this node that have a handrail."""
-- 
2.43.0


From 81d2e1cfa825907c4423a3703d2af682befc449d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:56 +0000
Subject: [PATCH 55/61] fix: ingesting metadata no longer changes what was
 given, nor shares its lists

---
 rsm/nodes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rsm/nodes.py b/rsm/nodes.py
index 6114452..2b5f19c 100644
--- a/rsm/nodes.py
+++ b/rsm/nodes.py
@@ -856,10 +856,11 @@ class Node:
             self.parent = None
 
     def ingest_dict_as_meta(self, meta: dict) -> None:
-        if "reftext" in meta:
-            meta["reftext_template"] = meta["reftext"]
-            del meta["reftext"]
         for key, value in meta.items():
+            if key == "reftext":
+                key = "reftext_template"
+            if isinstance(value, list):
+                value = list(value)
             setattr(self, str(key), value)
 
 
-- 
2.43.0


From aa1118b968f8d1d7904a5c691f9c4a5b1bcd20c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:59 +0000
Subject: [PATCH 56/61] fix: long lines and runs of spaces no longer take
 quadratic and cubic time

---
 rsm/tsparser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index a3f190e..ac4c54b 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -28,7 +28,6 @@ functions (mostly private ones) that are useful during the parsing process.
 
 """
 import logging
-import re
 import sys
 from itertools import groupby
 from pathlib import Path
@@ -460,8 +459,12 @@ def _normalize_text(root: TSNode) -> str:
         for child in node.children:
             if not isinstance(child, nodes.Text):
                 continue
-            child.text = re.sub(r"(.*?)\s+$", r"\1 ", child.text)
-            child.text = re.sub(r"^\s+(.*?)", r" \1", child.text)
+            # Regular expressions would take time quadratic in the length of the text,
+            # and cubic in the length of a run of spaces.
+            if child.text[-1:].isspace():
+                child.text = child.text.rstrip() + " "
+            if child.text[:1].isspace():
+                child.text = " " + child.text.lstrip()
 
         # Finally we handle the space between non-Text children of a paragraph, for
         # example two Spans together, or a Span followed by a Construct.  In all cases,
-- 
2.43.0


From ee8b2d029d29a0d22551a1113ff17712b9dada0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:37 +0000
Subject: [PATCH 57/61] fix: the style sheet no longer writes "1" before every
 entry of the bibliography

---
 rsm/static/rsm.css | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/rsm/static/rsm.css b/rsm/static/rsm.css
index 3fbdba0..572fe0a 100644
--- a/rsm/static/rsm.css
+++ b/rsm/static/rsm.css
@@ -981,20 +981,10 @@
 /* Bibliography */
 .manuscriptwrapper ol.bibliography {
   list-style: none;
-  counter-reset: item 1;
   padding-inline-start: 48px;
 
   li {margin-block: 0.75rem;}
 
-  li::before {
-    margin-right: 10px;
-    padding: 3px;
-    content: counter(item);
-    width: 1.2em;
-    text-align: center;
-    display: inline-block;
-  }
-
 }
 
 
-- 
2.43.0


From 48f1f33f61c0e55c603946aa6e1f90e2ad0e5d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:58 +0000
Subject: [PATCH 58/61] fix: an example in the documentation that mentions
 class="manuscriptwrapper" is shown as written

---
 docs/source/rsm_directive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/source/rsm_directive.py b/docs/source/rsm_directive.py
index cdd6ecf..5fb9217 100644
--- a/docs/source/rsm_directive.py
+++ b/docs/source/rsm_directive.py
@@ -45,7 +45,7 @@ def visit_rsm_body_node(self, node):
     upto_idx = node.body.rindex(finalstr := "</body>")
     body = node.body[from_idx:upto_idx]
     body = body.replace(
-        'class="manuscriptwrapper"', 'class="manuscriptwrapper embedded"'
+        'class="manuscriptwrapper"', 'class="manuscriptwrapper embedded"', 1
     )
     self.body.append(body)
 
-- 
2.43.0


From 41e488596dd0a6cabc7f007244137e1b02950386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:52 +0000
Subject: [PATCH 59/61] fix: a table of contents within a section has its
 floating minimap, too

---
 rsm/translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index da4b514..ab24546 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1666,7 +1666,7 @@ class HandrailsTranslator(Translator):
             )
         if self.add_source:
             batch.items.insert(2, self._make_source_div())
-        if toc := node.first_of_type(nodes.Contents):
+        if toc := next(node.traverse(nodeclass=nodes.Contents), None):
             batch.items = (
                 batch.items[:3]
                 + [AppendText('<div class="float-minimap-wrapper">')]
-- 
2.43.0


From 334ba9c41d4e70f112eca943d6bc5f5453276c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:02 +0000
Subject: [PATCH 60/61] fix: rsm.make() returns the page it writes, as
 documented

---
 rsm/app.py | 5 +++++
 rsm/cli.py | 1 +
 2 files changed, 6 insertions(+)

diff --git a/rsm/app.py b/rsm/app.py
index 2d99ec3..4767c58 100644
--- a/rsm/app.py
+++ b/rsm/app.py
@@ -254,6 +254,11 @@ class FullBuildApp(ProcessorApp):
         self.add_task(Task("builder", b := builder.FullBuilder(), b.build))
         self.add_task(Task("writer", w := writer.Writer(), w.write))
 
+    def run(self, initial_args: Any = None) -> Optional[str]:
+        result = super().run(initial_args)
+        # the writer has no output, the result is the page that was written
+        return self.writer.web.html if result is None else result
+
 
 def render(
     source: str = "",
diff --git a/rsm/cli.py b/rsm/cli.py
index 0708bc6..411990c 100644
--- a/rsm/cli.py
+++ b/rsm/cli.py
@@ -120,6 +120,7 @@ def make() -> int:
     parser = _init_parser()
     parser.add_argument("--serve", help="serve and autoreload", action="store_true")
     parser.set_defaults(handrails=True)
+    parser.set_defaults(silent=True)
     args = parser.parse_args()
 
     if args.serve:
-- 
2.43.0


From 34718dab5009d1ce5c00e997c6e1ea147c342651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:34 +0000
Subject: [PATCH 61/61] fix: ids made for citations and DOI links avoid the
 author's labels

---
 rsm/transformer.py | 9 ++++++++-
 rsm/translator.py  | 5 ++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index 3e91603..60cc412 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -179,6 +179,13 @@ class Transformer:
                 continue
             self.labels_to_nodes[node.label] = node
 
+    def _is_free(self, label: str, targets: list[nodes.Node]) -> bool:
+        # a cite with many targets also needs one label for each of them
+        ids = [label]
+        if len(targets) > 1:
+            ids += [f"{label}-{idx}" for idx, _ in enumerate(targets)]
+        return not any(id_ in self.labels_to_nodes for id_ in ids)
+
     def _label_to_node(self, label: str, default=nodes.Error) -> nodes.Node:
         try:
             return self.labels_to_nodes[label]
@@ -212,7 +219,7 @@ class Transformer:
                     for label in pending.targetlabels
                 ]
                 cite = nodes.Cite(targets=targets)
-                while (label := f"cite-{next(counter)}") in self.labels_to_nodes:
+                while not self._is_free(label := f"cite-{next(counter)}", targets):
                     pass  # the author already uses this label
                 cite.label = label
                 pending.replace_self(cite)
diff --git a/rsm/translator.py b/rsm/translator.py
index ab24546..cc02da6 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -543,6 +543,7 @@ class Translator:
         self.body: str = ""
         self.deferred: list[EditCommand] = []
         self.quiet = quiet
+        self.labels: set[str] = set()
 
     @classmethod
     def get_action_method(cls, node: nodes.Node, action: str) -> Callable:
@@ -568,6 +569,7 @@ class Translator:
         if new:
             self.body = ""
         self.tree = tree
+        self.labels = {node.label for node in tree.traverse()}
 
         if self.deferred:
             raise RSMTranslatorError("Something went wrong")
@@ -1082,9 +1084,10 @@ class Translator:
             logger.warning(f"Bibitem {node.label} has no year")
         text = _text(". ".join([i.strip(".") for i in items]) + ".")
         if node.doi:
+            id_ = f"{node.label}-doi" if node.label else ""
             a_tag = _make_tag(
                 "a",
-                id_=f"{node.label}-doi" if node.label else "",
+                id_="" if id_ in self.labels else id_,  # the author may use this label
                 classes=["bibitem-doi"],
                 href=f"https://doi.org/{node.doi}",
                 target="_blank",
-- 
2.43.0

