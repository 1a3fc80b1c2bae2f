From c784cf2f74e6ca231fdfc623f2045aa8c649d07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 01/71] fix: keep the vertical bar when reading a yw7 project

The character class that removes illegal control characters contained
'|', so every vertical bar in any text was lost on reading.
---
 src/pywriter/yw/yw7_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 1de5d10..c82b3e8 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -152,7 +152,7 @@ class Yw7File(File):
             except Exception as ex:
                 raise Error(f'{_("Can not process file")} - {str(ex)}')
 
-        xmlText = re.sub('[\x00-\x08|\x0b-\x0c|\x0e-\x1f]', '', xmlText)
+        xmlText = re.sub('[\x00-\x08\x0b-\x0c\x0e-\x1f]', '', xmlText)
         root = ET.fromstring(xmlText)
         xmlText = None
         # saving memory
-- 
2.43.0


From 1c23f49fde214a9478ca956f4f5a9319491bcf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 02/71] fix: write the scene items with the tag the reader and
 yWriter use

---
 src/pywriter/yw/yw7_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index c82b3e8..313d237 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -529,7 +529,7 @@ class Yw7File(File):
             if prjScn.items:
                 xmlItems = ET.SubElement(xmlScene, 'Items')
                 for ItId in prjScn.items:
-                    ET.SubElement(xmlItems, 'ItmID').text = ItId
+                    ET.SubElement(xmlItems, 'ItemID').text = ItId
 
         def build_chapter_subtree(xmlChapter, prjChp):
             # This is how yWriter 7.1.3.0 writes the chapter type:
-- 
2.43.0


From b79141a71730f62f6780c646af90f5ad3ac80932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 03/71] fix: unescape only the CDATA sections of the yw7 file

Unescaping the whole file left < and & bare in all elements that are
not written as CDATA (scene conflict, ratings, IDs, custom fields), so
the project could not be read any more; and custom fields within CDATA
were escaped once too often, growing with every save. Text containing
']]>' ended its CDATA section, and a line break before ']]' or after a
leading blank got lost.
---
 src/pywriter/yw/yw7_file.py | 38 +++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 313d237..65c1ecb 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -321,7 +321,7 @@ class Yw7File(File):
                 if prjScn.kwVar.get(field, None):
                     if xmlSceneFields is None:
                         xmlSceneFields = ET.SubElement(xmlScene, 'Fields')
-                    fieldEntry = self._convert_from_yw(prjScn.kwVar[field])
+                    fieldEntry = prjScn.kwVar[field]
                     try:
                         xmlSceneFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -614,7 +614,7 @@ class Yw7File(File):
                     if xmlChapterFields is None:
                         xmlChapterFields = ET.Element('Fields')
                         xmlChapter.insert(i, xmlChapterFields)
-                    fieldEntry = self._convert_from_yw(prjChp.kwVar[field])
+                    fieldEntry = prjChp.kwVar[field]
                     try:
                         xmlChapterFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -673,7 +673,7 @@ class Yw7File(File):
                 if prjLoc.kwVar.get(field, None):
                     if xmlLocationFields is None:
                         xmlLocationFields = ET.SubElement(xmlLoc, 'Fields')
-                    fieldEntry = self._convert_from_yw(prjLoc.kwVar[field])
+                    fieldEntry = prjLoc.kwVar[field]
                     try:
                         xmlLocationFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -729,7 +729,7 @@ class Yw7File(File):
                 if prjItm.kwVar.get(field, None):
                     if xmlItemFields is None:
                         xmlItemFields = ET.SubElement(xmlItm, 'Fields')
-                    fieldEntry = self._convert_from_yw(prjItm.kwVar[field])
+                    fieldEntry = prjItm.kwVar[field]
                     try:
                         xmlItemFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -781,7 +781,7 @@ class Yw7File(File):
                 if prjCrt.kwVar.get(field, None):
                     if xmlCharacterFields is None:
                         xmlCharacterFields = ET.SubElement(xmlCrt, 'Fields')
-                    fieldEntry = self._convert_from_yw(prjCrt.kwVar[field])
+                    fieldEntry = prjCrt.kwVar[field]
                     try:
                         xmlCharacterFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -876,7 +876,7 @@ class Yw7File(File):
                 if setting:
                     if xmlProjectFields is None:
                         xmlProjectFields = ET.SubElement(xmlProject, 'Fields')
-                    fieldEntry = self._convert_from_yw(setting)
+                    fieldEntry = setting
                     try:
                         xmlProjectFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -1125,28 +1125,30 @@ class Yw7File(File):
             filePath: str -- path to xml file.
         
         Read the xml file, put a header on top, insert the missing CDATA tags,
-        and replace xml entities by plain text (unescape). Overwrite the .yw7 xml file.
+        and replace xml entities by plain text (unescape) within the CDATA sections. 
+        Overwrite the .yw7 xml file.
         Raise the "Error" exception in case of error. 
         
         Note: The path is given as an argument rather than using self.filePath. 
         So this routine can be used for yWriter-generated xml files other than .yw7 as well. 
         """
+
+        def to_cdata(match):
+            tag, content = match.groups()
+            content = unescape(content)
+            if content.endswith('\n'):
+                content = content[:-1]
+            content = content.replace(']]>', ']]]]><![CDATA[>')
+            # a CDATA section cannot contain its own end mark
+            return f'<{tag}><![CDATA[{content}]]></{tag}>'
+
         with open(filePath, 'r', encoding='utf-8') as f:
             text = f.read()
-        lines = text.split('\n')
-        newlines = ['<?xml version="1.0" encoding="utf-8"?>']
-        for line in lines:
-            for tag in self._CDATA_TAGS:
-                line = re.sub(fr'\<{tag}\>', f'<{tag}><![CDATA[', line)
-                line = re.sub(fr'\<\/{tag}\>', f']]></{tag}>', line)
-            newlines.append(line)
-        text = '\n'.join(newlines)
-        text = text.replace('[CDATA[ \n', '[CDATA[')
-        text = text.replace('\n]]', ']]')
+        text = re.sub(fr'<({"|".join(self._CDATA_TAGS)})>(.*?)</\1>', to_cdata, text, flags=re.DOTALL)
+        text = f'<?xml version="1.0" encoding="utf-8"?>\n{text}'
         if not self.novel.chapters:
             text = text.replace('<CHAPTERS />', '<CHAPTERS></CHAPTERS>')
             # otherwise, yWriter fails to parse the file if there are no chapters.
-        text = unescape(text)
         try:
             with open(filePath, 'w', encoding='utf-8') as f:
                 f.write(text)
-- 
2.43.0


From 08e2e347f7c7bed27874a1e0b297b3d64d9599c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 04/71] fix: read scenes with an empty Day element

A day that is not a number is read as an empty string and then saved as
an empty element, which made reading the project fail with a TypeError.
---
 src/pywriter/yw/yw7_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 65c1ecb..dc5f736 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1503,7 +1503,7 @@ class Yw7File(File):
                     # Check if Day represents an integer.
                     try:
                         int(day)
-                    except ValueError:
+                    except(TypeError, ValueError):
                         day = ''
                     self.novel.scenes[scId].day = day
 
-- 
2.43.0


From 2d713e7f4d22ca1fbdcc1bd3a648e44cd73e85c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 05/71] fix: save unspecific scene times of the form hh:mm

Scene.time is documented as hh:mm, but only hh:mm:ss could be saved.
---
 src/pywriter/yw/yw7_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index dc5f736..d5236e5 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -430,7 +430,7 @@ class Yw7File(File):
                         except(AttributeError):
                             ET.SubElement(xmlScene, 'Day').text = prjScn.day
                     if prjScn.time is not None:
-                        hours, minutes, __ = prjScn.time.split(':')
+                        hours, minutes = prjScn.time.split(':')[:2]
                         try:
                             xmlScene.find('Hour').text = hours
                         except(AttributeError):
-- 
2.43.0


From 6ddb39ebe629b4c86525960763735d196ce166fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:39 +0000
Subject: [PATCH 06/71] fix: restore the project file when the last step of
 saving fails

---
 src/pywriter/yw/yw7_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index d5236e5..1786a5b 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -202,7 +202,6 @@ class Yw7File(File):
             self.novel.scenes[scId].kwVar['Field_SceneStyle'] = None
         self._build_element_tree()
         self._write_element_tree(self)
-        self._postprocess_xml_file(self.filePath)
 
     def _build_element_tree(self):
         """Modify the yWriter project attributes of an existing xml element tree."""
@@ -1686,6 +1685,7 @@ class Yw7File(File):
     def _write_element_tree(self, ywProject):
         """Write back the xml element tree to a .yw7 xml file located at filePath.
         
+        Restore the previous file if the new one cannot be completed.
         Raise the "Error" exception in case of error. 
         """
         backedUp = False
@@ -1698,6 +1698,7 @@ class Yw7File(File):
                 backedUp = True
         try:
             ywProject.tree.write(ywProject.filePath, xml_declaration=False, encoding='utf-8')
+            self._postprocess_xml_file(ywProject.filePath)
         except:
             if backedUp:
                 os.replace(f'{ywProject.filePath}.bak', ywProject.filePath)
-- 
2.43.0


From 304d4ea13562b1f70e5ab11bd08d2c10e508cfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:05 +0000
Subject: [PATCH 07/71] fix: escape title, author and description in the
 metadata of ODF documents

---
 src/pywriter/odf/odf_file.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/odf/odf_file.py b/src/pywriter/odf/odf_file.py
index 85d1186..7657d37 100644
--- a/src/pywriter/odf/odf_file.py
+++ b/src/pywriter/odf/odf_file.py
@@ -12,6 +12,7 @@ import tempfile
 from shutil import rmtree
 from datetime import datetime
 from string import Template
+from xml.sax.saxutils import escape
 from pywriter.pywriter_globals import *
 from pywriter.file.file_export import FileExport
 
@@ -147,9 +148,9 @@ class OdfFile(FileExport):
 
         #--- Generate meta.xml with actual document metadata.
         metaMapping = dict(
-            Author=self.novel.authorName,
-            Title=self.novel.title,
-            Summary=f'<![CDATA[{self.novel.desc}]]>',
+            Author=escape(self.novel.authorName or ''),
+            Title=escape(self.novel.title or ''),
+            Summary=escape(self.novel.desc or ''),
             Datetime=datetime.today().replace(microsecond=0).isoformat(),
         )
         template = Template(self._META_XML)
-- 
2.43.0


From 9181f979e1771432de44ebf5ef6f409ff118f264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:58 +0000
Subject: [PATCH 08/71] fix: escape all project texts in the content of ODF
 documents

---
 src/pywriter/file/file_export.py       | 16 ++++++++--------
 src/pywriter/odt_w/odt_w_characters.py |  4 ++--
 src/pywriter/odt_w/odt_w_export.py     |  4 +++-
 src/pywriter/odt_w/odt_w_formatted.py  |  3 ++-
 src/pywriter/odt_w/odt_w_items.py      |  2 +-
 src/pywriter/odt_w/odt_w_locations.py  |  2 +-
 src/pywriter/odt_w/odt_w_proof.py      |  3 ++-
 src/pywriter/odt_w/odt_w_xref.py       |  2 +-
 8 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/pywriter/file/file_export.py b/src/pywriter/file/file_export.py
index 9e5aded..90d8d44 100644
--- a/src/pywriter/file/file_export.py
+++ b/src/pywriter/file/file_export.py
@@ -517,10 +517,10 @@ class FileExport(File):
             FieldTitle2=self._convert_from_yw(self.novel.fieldTitle2, True),
             FieldTitle3=self._convert_from_yw(self.novel.fieldTitle3, True),
             FieldTitle4=self._convert_from_yw(self.novel.fieldTitle4, True),
-            Field1=self.novel.scenes[scId].field1,
-            Field2=self.novel.scenes[scId].field2,
-            Field3=self.novel.scenes[scId].field3,
-            Field4=self.novel.scenes[scId].field4,
+            Field1=self._convert_from_yw(self.novel.scenes[scId].field1, True),
+            Field2=self._convert_from_yw(self.novel.scenes[scId].field2, True),
+            Field3=self._convert_from_yw(self.novel.scenes[scId].field3, True),
+            Field4=self._convert_from_yw(self.novel.scenes[scId].field4, True),
             Date=scDate,
             Time=scTime,
             Day=scDay,
@@ -535,10 +535,10 @@ class FileExport(File):
             Outcome=self._convert_from_yw(self.novel.scenes[scId].outcome),
             Tags=self._convert_from_yw(tags, True),
             Image=self.novel.scenes[scId].image,
-            Characters=sceneChars,
-            Viewpoint=viewpointChar,
-            Locations=sceneLocs,
-            Items=sceneItems,
+            Characters=self._convert_from_yw(sceneChars, True),
+            Viewpoint=self._convert_from_yw(viewpointChar, True),
+            Locations=self._convert_from_yw(sceneLocs, True),
+            Items=self._convert_from_yw(sceneItems, True),
             Notes=self._convert_from_yw(self.novel.scenes[scId].notes),
             ProjectName=self._convert_from_yw(self.projectName, True),
             ProjectPath=self.projectPath,
diff --git a/src/pywriter/odt_w/odt_w_characters.py b/src/pywriter/odt_w/odt_w_characters.py
index 82209c0..aa1b33b 100644
--- a/src/pywriter/odt_w/odt_w_characters.py
+++ b/src/pywriter/odt_w/odt_w_characters.py
@@ -54,7 +54,7 @@ class OdtWCharacters(OdtWriter):
         """
         characterMapping = OdtWriter._get_characterMapping(self, crId)
         if self.novel.characters[crId].aka:
-            characterMapping['AKA'] = f' ("{self.novel.characters[crId].aka}")'
+            characterMapping['AKA'] = f' ("{self._convert_from_yw(self.novel.characters[crId].aka, True)}")'
         if self.novel.characters[crId].fullName:
-            characterMapping['FullName'] = f'/{self.novel.characters[crId].fullName}'
+            characterMapping['FullName'] = f'/{self._convert_from_yw(self.novel.characters[crId].fullName, True)}'
         return characterMapping
diff --git a/src/pywriter/odt_w/odt_w_export.py b/src/pywriter/odt_w/odt_w_export.py
index 80efacd..456a6fc 100644
--- a/src/pywriter/odt_w/odt_w_export.py
+++ b/src/pywriter/odt_w/odt_w_export.py
@@ -5,6 +5,7 @@ For further information see https://github.com/peter88213/PyWriter
 Published under the MIT License (https://opensource.org/licenses/mit-license.php)
 """
 import re
+from xml.sax.saxutils import escape
 from pywriter.pywriter_globals import *
 from pywriter.odt_w.odt_w_formatted import OdtWFormatted
 
@@ -108,7 +109,8 @@ class OdtWExport(OdtWFormatted):
             text = text.replace('\r', '@r@').replace('\n', '@n@')
             self._noteCounter = 0
             self._noteNumber = 0
-            simpleComment = (f'<office:annotation><dc:creator>{self.novel.authorName}'
+            author = escape(self.novel.authorName or '').replace('\\', r'\\')
+            simpleComment = (f'<office:annotation><dc:creator>{author}'
                              '</dc:creator><text:p>\\1</text:p></office:annotation>'
                              )
             text = re.sub(r'\/\* *@([ef]n\**) (.*?)\*\/', replace_note, text)
diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index eed9e54..31f0331 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -6,6 +6,7 @@ Published under the MIT License (https://opensource.org/licenses/mit-license.php
 """
 import re
 from string import Template
+from xml.sax.saxutils import escape
 from pywriter.pywriter_globals import *
 from pywriter.odt_w.odt_writer import OdtWriter
 
@@ -148,7 +149,7 @@ class OdtWFormatted(OdtWriter):
                 ('[/i]', '</text:span>'),
                 ('[b]', '<text:span text:style-name="Strong_20_Emphasis">'),
                 ('[/b]', '</text:span>'),
-                ('/*', f'<office:annotation><dc:creator>{self.novel.authorName}</dc:creator><text:p>'),
+                ('/*', f'<office:annotation><dc:creator>{escape(self.novel.authorName or "")}</dc:creator><text:p>'),
                 ('*/', '</text:p></office:annotation>'),
                 ]
 
diff --git a/src/pywriter/odt_w/odt_w_items.py b/src/pywriter/odt_w/odt_w_items.py
index a05d86b..c7ad7f2 100644
--- a/src/pywriter/odt_w/odt_w_items.py
+++ b/src/pywriter/odt_w/odt_w_items.py
@@ -39,5 +39,5 @@ class OdtWItems(OdtWriter):
         """
         itemMapping = super()._get_itemMapping(itId)
         if self.novel.items[itId].aka:
-            itemMapping['AKA'] = f' ("{self.novel.items[itId].aka}")'
+            itemMapping['AKA'] = f' ("{self._convert_from_yw(self.novel.items[itId].aka, True)}")'
         return itemMapping
diff --git a/src/pywriter/odt_w/odt_w_locations.py b/src/pywriter/odt_w/odt_w_locations.py
index 33c8b19..9b366f0 100644
--- a/src/pywriter/odt_w/odt_w_locations.py
+++ b/src/pywriter/odt_w/odt_w_locations.py
@@ -39,5 +39,5 @@ class OdtWLocations(OdtWriter):
         """
         locationMapping = super()._get_locationMapping(lcId)
         if self.novel.locations[lcId].aka:
-            locationMapping['AKA'] = f' ("{self.novel.locations[lcId].aka}")'
+            locationMapping['AKA'] = f' ("{self._convert_from_yw(self.novel.locations[lcId].aka, True)}")'
         return locationMapping
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index 9e95351..f633388 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -6,6 +6,7 @@ Published under the MIT License (https://opensource.org/licenses/mit-license.php
 """
 import re
 from string import Template
+from xml.sax.saxutils import escape
 from pywriter.pywriter_globals import *
 from pywriter.odt_w.odt_w_formatted import OdtWFormatted
 
@@ -64,7 +65,7 @@ class OdtWProof(OdtWFormatted):
                 ('\r', '\n'),
                 ('[/i]', '</text:span>'),
                 ('[/b]', '</text:span>'),
-                ('/*', f'<office:annotation><dc:creator>{self.novel.authorName}</dc:creator><text:p>'),
+                ('/*', f'<office:annotation><dc:creator>{escape(self.novel.authorName or "")}</dc:creator><text:p>'),
                 ('*/', '</text:p></office:annotation>'),
             ])
             i = 0
diff --git a/src/pywriter/odt_w/odt_w_xref.py b/src/pywriter/odt_w/odt_w_xref.py
index 5a7bf14..b73c613 100644
--- a/src/pywriter/odt_w/odt_w_xref.py
+++ b/src/pywriter/odt_w/odt_w_xref.py
@@ -213,7 +213,7 @@ $SceneNumber (Ch $Chapter) $Title (ToDo)
             tag: str -- a single scene tag.
         """
         tagMapping = dict(
-            Tag=tag,
+            Tag=self._convert_from_yw(tag, True),
         )
         return tagMapping
 
-- 
2.43.0


From 1acf8f90a7bc907bc0b81172f1d5001412af83f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:47 +0000
Subject: [PATCH 09/71] fix: read the project variables following one with an
 empty title

---
 src/pywriter/yw/yw7_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 1786a5b..0dc8ef0 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1381,7 +1381,7 @@ class Yw7File(File):
                         if xmlProjectvar.find('Desc') is not None:
                             self.novel.countryCode = xmlProjectvar.find('Desc').text
 
-                    elif title.startswith('lang='):
+                    elif title and title.startswith('lang='):
                         try:
                             __, langCode = title.split('=')
                             if self.novel.languages is None:
-- 
2.43.0


From 8e58d4cb1ff3b62b0adc231418131ae5b3153aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:47 +0000
Subject: [PATCH 10/71] fix: read projects in the encoding their XML header
 declares

---
 src/pywriter/yw/yw7_file.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 0dc8ef0..189797d 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -152,11 +152,13 @@ class Yw7File(File):
             except Exception as ex:
                 raise Error(f'{_("Can not process file")} - {str(ex)}')
 
-        xmlText = re.sub('[\x00-\x08\x0b-\x0c\x0e-\x1f]', '', xmlText)
-        root = ET.fromstring(xmlText)
-        xmlText = None
-        # saving memory
-        self.tree = ET.ElementTree(root)
+            root = self.tree.getroot()
+        else:
+            xmlText = re.sub('[\x00-\x08\x0b-\x0c\x0e-\x1f]', '', xmlText)
+            root = ET.fromstring(xmlText)
+            xmlText = None
+            # saving memory
+            self.tree = ET.ElementTree(root)
         self._read_project(root)
         self._read_locations(root)
         self._read_items(root)
-- 
2.43.0


From 5c033fdf7810957321140ff37476058ae272c7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:23 +0000
Subject: [PATCH 11/71] fix: save projects with a project variable whose title
 is empty

---
 src/pywriter/yw/yw7_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 189797d..b19bef0 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -997,7 +997,7 @@ class Yw7File(File):
                 title = xmlProjectvar.find('Title').text
 
                 # Collect language codes.
-                if title.startswith('lang='):
+                if title and title.startswith('lang='):
                     try:
                         __, langCode = title.split('=')
                         languages.remove(langCode)
-- 
2.43.0


From f989e4987e93943c811de1552eb919f45f6ea261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:06 +0000
Subject: [PATCH 12/71] fix: keep white space between formatted passages when
 importing a manuscript

---
 src/pywriter/odt_r/odt_r_manuscript.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_manuscript.py b/src/pywriter/odt_r/odt_r_manuscript.py
index 6fb8089..921ecf2 100644
--- a/src/pywriter/odt_r/odt_r_manuscript.py
+++ b/src/pywriter/odt_r/odt_r_manuscript.py
@@ -57,8 +57,7 @@ class OdtRManuscript(OdtRFormatted):
         if self._skip_data:
             self._skip_data = False
         elif self._scId is not None:
-            if not data.isspace():
-                self._lines.append(data)
+            self._lines.append(data)
         elif self._chId is not None:
             if self.novel.chapters[self._chId].title is None:
                 self.novel.chapters[self._chId].title = data.strip()
-- 
2.43.0


From 7b5943af21f12a66ffee94c8da86532c9b36f190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:00 +0000
Subject: [PATCH 13/71] fix: recognize quotations with markup reaching across
 lines

---
 src/pywriter/odt_w/odt_w_formatted.py | 4 ++--
 src/pywriter/odt_w/odt_w_proof.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index 31f0331..fe501ff 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -84,8 +84,8 @@ class OdtWFormatted(OdtWriter):
                 for line in lines:
                     for tag in tags:
                         if isOpen[tag]:
-                            if line.startswith('&gt; '):
-                                line = f"&gt; {opening[tag]}{line.lstrip('&gt; ')}"
+                            if line.startswith('> '):
+                                line = f'> {opening[tag]}{line[2:]}'
                             else:
                                 line = f'{opening[tag]}{line}'
                             isOpen[tag] = False
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index f633388..acd1fcc 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -91,8 +91,8 @@ class OdtWProof(OdtWFormatted):
             for line in lines:
                 for tag in tags:
                     if isOpen[tag]:
-                        if line.startswith('&gt; '):
-                            line = f"&gt; {opening[tag]}{line.lstrip('&gt; ')}"
+                        if line.startswith('> '):
+                            line = f'> {opening[tag]}{line[2:]}'
                         else:
                             line = f'{opening[tag]}{line}'
                         isOpen[tag] = False
-- 
2.43.0


From 99d2794f091b8edcbbcca297f1e99964b6d170d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:27 +0000
Subject: [PATCH 14/71] fix: keep the nesting of markup reaching across lines

---
 src/pywriter/odt_w/odt_w_formatted.py | 6 +++++-
 src/pywriter/odt_w/odt_w_proof.py     | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index fe501ff..d48ffbd 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -81,14 +81,18 @@ class OdtWFormatted(OdtWriter):
                     isOpen[tag] = False
                     opening[tag] = f'[{tag}]'
                     closing[tag] = f'[/{tag}]'
+                nesting = list(tags)
                 for line in lines:
-                    for tag in tags:
+                    # Reopen tags in the order of their nesting.
+                    for tag in reversed(nesting):
                         if isOpen[tag]:
                             if line.startswith('> '):
                                 line = f'> {opening[tag]}{line[2:]}'
                             else:
                                 line = f'{opening[tag]}{line}'
                             isOpen[tag] = False
+                    nesting.sort(key=lambda tag: line.rfind(opening[tag]))
+                    for tag in tags:
                         while line.count(opening[tag]) > line.count(closing[tag]):
                             line = f'{line}{closing[tag]}'
                             isOpen[tag] = True
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index acd1fcc..ae3adda 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -88,14 +88,18 @@ class OdtWProof(OdtWFormatted):
                 isOpen[tag] = False
                 opening[tag] = f'[{tag}]'
                 closing[tag] = f'[/{tag}]'
+            nesting = list(tags)
             for line in lines:
-                for tag in tags:
+                # Reopen tags in the order of their nesting.
+                for tag in reversed(nesting):
                     if isOpen[tag]:
                         if line.startswith('> '):
                             line = f'> {opening[tag]}{line[2:]}'
                         else:
                             line = f'{opening[tag]}{line}'
                         isOpen[tag] = False
+                nesting.sort(key=lambda tag: line.rfind(opening[tag]))
+                for tag in tags:
                     while line.count(opening[tag]) > line.count(closing[tag]):
                         line = f'{line}{closing[tag]}'
                         isOpen[tag] = True
-- 
2.43.0


From 9dc5da96d2bc6ec767c8c63360f694b8729eaa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:01 +0000
Subject: [PATCH 15/71] fix: close all formatting of a span at its end when
 reading ODT documents

---
 src/pywriter/odt_r/odt_parser.py | 44 +++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index bd4bead..120a1a8 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -123,7 +123,7 @@ class OdtParser(sax.ContentHandler):
         if name == 'text:p':
             if self._commentParagraphCount is None:
                 while self._span:
-                    self._client.handle_endtag(self._span.pop())
+                    self._close_span()
                 if self._blockquote:
                     self._client.handle_endtag('blockquote')
                     self._blockquote = False
@@ -134,8 +134,8 @@ class OdtParser(sax.ContentHandler):
                     self._client.handle_endtag('p')
                 self._paragraph = False
         elif name == 'text:span':
-            if self._span:
-                self._client.handle_endtag(self._span.pop())
+            if self._span and self._commentParagraphCount is None:
+                self._close_span()
         elif name == 'text:section':
             self._client.handle_endtag('div')
         elif name == 'office:annotation':
@@ -181,22 +181,14 @@ class OdtParser(sax.ContentHandler):
             else:
                 self._client.handle_starttag('p', param)
                 self._paragraph = True
-            if style in self._emTags:
-                self._span.append('em')
-                self._client.handle_starttag('em', [()])
-            if style in self._strongTags:
-                self._span.append('strong')
-                self._client.handle_starttag('strong', [()])
+            if self._commentParagraphCount is None:
+                self._open_span(style)
         elif name == 'text:span':
-            if style in self._emTags:
-                self._span.append('em')
-                self._client.handle_starttag('em', [()])
-            if style in self._strongTags:
-                self._span.append('strong')
-                self._client.handle_starttag('strong', [()])
-            if style in self._languageTags:
-                self._span.append('lang')
-                self._client.handle_starttag('lang', [('lang', self._languageTags[style])])
+            if self._commentParagraphCount is None:
+                self._open_span(style)
+                if style in self._languageTags:
+                    self._span[-1].append('lang')
+                    self._client.handle_starttag('lang', [('lang', self._languageTags[style])])
         elif name == 'text:section':
             sectionId = xmlAttributes['text:name']
             self._client.handle_starttag('div', [('id', sectionId)])
@@ -234,3 +226,19 @@ class OdtParser(sax.ContentHandler):
         elif name == 'text:s':
             self._client.handle_starttag('s', [()])
 
+    def _close_span(self):
+        """Close all tags belonging to the innermost span."""
+        for tag in reversed(self._span.pop()):
+            self._client.handle_endtag(tag)
+
+    def _open_span(self, style):
+        """Open the emphasizing tags belonging to the style."""
+        tags = []
+        self._span.append(tags)
+        if style in self._emTags:
+            tags.append('em')
+            self._client.handle_starttag('em', [()])
+        if style in self._strongTags:
+            tags.append('strong')
+            self._client.handle_starttag('strong', [()])
+
-- 
2.43.0


From 2a9fe1b9758c890ec13b0f00d9b2c6fae5d0e103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:58 +0000
Subject: [PATCH 16/71] fix: keep blanks next to special characters when
 importing descriptions

---
 src/pywriter/odt_r/odt_r_chapterdesc.py | 2 +-
 src/pywriter/odt_r/odt_r_characters.py  | 2 +-
 src/pywriter/odt_r/odt_r_items.py       | 2 +-
 src/pywriter/odt_r/odt_r_locations.py   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_chapterdesc.py b/src/pywriter/odt_r/odt_r_chapterdesc.py
index c9e5133..fc893ca 100644
--- a/src/pywriter/odt_r/odt_r_chapterdesc.py
+++ b/src/pywriter/odt_r/odt_r_chapterdesc.py
@@ -49,4 +49,4 @@ class OdtRChapterDesc(OdtReader):
         Overrides the superclass method.
         """
         if self._chId is not None:
-            self._lines.append(data.strip())
+            self._lines.append(data)
diff --git a/src/pywriter/odt_r/odt_r_characters.py b/src/pywriter/odt_r/odt_r_characters.py
index 93106cd..6e5972f 100644
--- a/src/pywriter/odt_r/odt_r_characters.py
+++ b/src/pywriter/odt_r/odt_r_characters.py
@@ -46,7 +46,7 @@ class OdtRCharacters(OdtReader):
         Overrides the superclass method.
         """
         if self._section is not None:
-            self._lines.append(data.strip())
+            self._lines.append(data)
 
     def handle_endtag(self, tag):
         """Recognize the end of the character section and save data.
diff --git a/src/pywriter/odt_r/odt_r_items.py b/src/pywriter/odt_r/odt_r_items.py
index d927bef..b3633ea 100644
--- a/src/pywriter/odt_r/odt_r_items.py
+++ b/src/pywriter/odt_r/odt_r_items.py
@@ -45,7 +45,7 @@ class OdtRItems(OdtReader):
         Overrides the superclass method.
         """
         if self._itId is not None:
-            self._lines.append(data.strip())
+            self._lines.append(data)
 
     def handle_endtag(self, tag):
         """Recognize the end of the item section and save data.
diff --git a/src/pywriter/odt_r/odt_r_locations.py b/src/pywriter/odt_r/odt_r_locations.py
index e365407..6ac6cc2 100644
--- a/src/pywriter/odt_r/odt_r_locations.py
+++ b/src/pywriter/odt_r/odt_r_locations.py
@@ -45,7 +45,7 @@ class OdtRLocations(OdtReader):
         Overrides the superclass method.
         """
         if self._lcId is not None:
-            self._lines.append(data.strip())
+            self._lines.append(data)
 
     def handle_endtag(self, tag):
         """Recognize the end of the location section and save data.
-- 
2.43.0


From 656d66c42829b2b6f69f00ae3db32770cd550d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:59 +0000
Subject: [PATCH 17/71] fix: read multiple blanks, tabs, and line breaks of ODT
 documents

---
 src/pywriter/odt_r/odt_parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 120a1a8..ad9b231 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -224,7 +224,11 @@ class OdtParser(sax.ContentHandler):
                     locale = lngCode
                 self._languageTags[self._style] = locale
         elif name == 'text:s':
-            self._client.handle_starttag('s', [()])
+            self.characters(' ' * int(xmlAttributes.get('text:c', 1)))
+        elif name == 'text:tab':
+            self.characters('\t')
+        elif name == 'text:line-break':
+            self.characters('\n' if self._heading is None else ' ')
 
     def _close_span(self):
         """Close all tags belonging to the innermost span."""
-- 
2.43.0


From 79fb1555f567bca72ccf4215b8a6c9d83bdc254b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:59 +0000
Subject: [PATCH 18/71] fix: keep a comment at the beginning of a scene
 description

---
 src/pywriter/odt_r/odt_r_scenedesc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_r_scenedesc.py b/src/pywriter/odt_r/odt_r_scenedesc.py
index 888c565..66190b2 100644
--- a/src/pywriter/odt_r/odt_r_scenedesc.py
+++ b/src/pywriter/odt_r/odt_r_scenedesc.py
@@ -52,7 +52,7 @@ class OdtRSceneDesc(OdtReader):
                         if self._SC_TITLE_BRACKET in scTitle:
                             self.novel.scenes[self._scId].title = scTitle.split(
                                 self._SC_TITLE_BRACKET)[1].strip()
-                        text = scContent
+                            text = scContent
                     except:
                         pass
                 self.novel.scenes[self._scId].desc = text.rstrip()
-- 
2.43.0


From 8fc2c477a0cc3579fa25c24dfd45e218046f4745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:22 +0000
Subject: [PATCH 19/71] fix: ignore paragraphs outside of the sections when
 importing character sheets

---
 src/pywriter/odt_r/odt_r_characters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_r_characters.py b/src/pywriter/odt_r/odt_r_characters.py
index 6e5972f..ac27234 100644
--- a/src/pywriter/odt_r/odt_r_characters.py
+++ b/src/pywriter/odt_r/odt_r_characters.py
@@ -74,7 +74,7 @@ class OdtRCharacters(OdtReader):
                     self.novel.characters[self._crId].notes = ''.join(self._lines).rstrip()
                     self._lines = []
                     self._section = None
-            elif tag == 'p':
+            elif tag == 'p' and self._section is not None:
                 self._lines.append('\n')
 
     def handle_starttag(self, tag, attrs):
-- 
2.43.0


From 9755cb01096a7100d99324a7fed3ad2cdc7d1f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 20/71] fix: read tabs and line breaks of ODS documents

---
 src/pywriter/ods_r/ods_parser.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/ods_r/ods_parser.py b/src/pywriter/ods_r/ods_parser.py
index 61786a7..414cf20 100644
--- a/src/pywriter/ods_r/ods_parser.py
+++ b/src/pywriter/ods_r/ods_parser.py
@@ -61,7 +61,7 @@ class OdsParser:
                 if cell.find('text:p', namespaces) is not None:
                     paragraphs = []
                     for par in cell.findall('text:p', namespaces):
-                        strippedText = ''.join(par.itertext())
+                        strippedText = self._get_text(par, namespaces['text'])
                         paragraphs.append(strippedText)
                     content = '\n'.join(paragraphs)
                     cells.append(content)
@@ -92,3 +92,16 @@ class OdsParser:
                 # print(cells)
         return rows
 
+    def _get_text(self, element, textNamespace):
+        """Return the text of a paragraph including tabs and line breaks."""
+        text = element.text or ''
+        for child in element:
+            if child.tag == f'{{{textNamespace}}}tab':
+                text += '\t'
+            elif child.tag == f'{{{textNamespace}}}line-break':
+                text += '\n'
+            else:
+                text += self._get_text(child, textNamespace)
+            text += child.tail or ''
+        return text
+
-- 
2.43.0


From 8231788c3891a1092271718f03a4c943840d0d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 21/71] fix: keep the columns apart when importing ODS
 documents with merged cells

---
 src/pywriter/ods_r/ods_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/ods_r/ods_parser.py b/src/pywriter/ods_r/ods_parser.py
index 414cf20..f8fec2d 100644
--- a/src/pywriter/ods_r/ods_parser.py
+++ b/src/pywriter/ods_r/ods_parser.py
@@ -56,7 +56,10 @@ class OdsParser:
         for row in table.findall('table:table-row', namespaces):
             cells = []
             i = 0
-            for cell in row.findall('table:table-cell', namespaces):
+            for cell in row:
+                if cell.tag not in (f'{{{namespaces["table"]}}}table-cell', f'{{{namespaces["table"]}}}covered-table-cell'):
+                    continue
+
                 content = ''
                 if cell.find('text:p', namespaces) is not None:
                     paragraphs = []
-- 
2.43.0


From f1796c6f85893142bfffd0469fb481fd443b899b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 22/71] fix: import grouped rows of ODS documents

---
 src/pywriter/ods_r/ods_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/ods_r/ods_parser.py b/src/pywriter/ods_r/ods_parser.py
index f8fec2d..853ba65 100644
--- a/src/pywriter/ods_r/ods_parser.py
+++ b/src/pywriter/ods_r/ods_parser.py
@@ -53,7 +53,7 @@ class OdsParser:
         spreadsheet = body.find('office:spreadsheet', namespaces)
         table = spreadsheet.find('table:table', namespaces)
         rows = []
-        for row in table.findall('table:table-row', namespaces):
+        for row in table.iter(f'{{{namespaces["table"]}}}table-row'):
             cells = []
             i = 0
             for cell in row:
-- 
2.43.0


From 803e82d2980fe99cee7dbbbbea35ab723b681d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:23 +0000
Subject: [PATCH 23/71] fix: do not duplicate the languages when a project is
 read again

---
 src/pywriter/yw/yw7_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index b19bef0..a8f4319 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1371,6 +1371,8 @@ class Yw7File(File):
 
     def _read_projectvars(self, root):
         """Read relevant project variables from the xml element tree."""
+        self.novel.languages = None
+        # This is necessary for re-reading.
         try:
             for xmlProjectvar in root.find('PROJECTVARS'):
                 if xmlProjectvar.find('Title') is not None:
-- 
2.43.0


From e2e553fa3ae67d3c8409a240d66a2dfcd63eee1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:27 +0000
Subject: [PATCH 24/71] fix: a scene divider following a chapter heading
 deleted the text of the split scene

---
 src/pywriter/model/splitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/model/splitter.py b/src/pywriter/model/splitter.py
index 755c319..e37276b 100644
--- a/src/pywriter/model/splitter.py
+++ b/src/pywriter/model/splitter.py
@@ -137,7 +137,8 @@ class Splitter:
                         desc = ''
                     if line.startswith(self.SCENE_SEPARATOR):
                         # Split the scene.
-                        file.novel.scenes[sceneId].sceneContent = '\n'.join(newLines)
+                        if inScene:
+                            file.novel.scenes[sceneId].sceneContent = '\n'.join(newLines)
                         newLines = []
                         sceneSplitCount += 1
                         sceneId = create_id(file.novel.scenes)
-- 
2.43.0


From 54f83964a25550077aed87c493eabe44d1c8838c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:27 +0000
Subject: [PATCH 25/71] fix: a new part was not reported as a change of the
 structure

---
 src/pywriter/model/splitter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pywriter/model/splitter.py b/src/pywriter/model/splitter.py
index e37276b..717fd41 100644
--- a/src/pywriter/model/splitter.py
+++ b/src/pywriter/model/splitter.py
@@ -175,6 +175,7 @@ class Splitter:
                             title = _('New Part')
                         create_chapter(chapterId, title, desc, 1)
                         srtChapters.append(chapterId)
+                        scenesSplit = True
                     elif not inScene:
                         # Append a scene without heading to a new chapter or part.
                         newLines.append(line)
-- 
2.43.0


From 50b993772f59d1e339039818060874fdb60a0cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:27 +0000
Subject: [PATCH 26/71] fix: chapters split from notes and todo chapters became
 normal chapters

---
 src/pywriter/model/splitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/model/splitter.py b/src/pywriter/model/splitter.py
index 717fd41..f9f4b3b 100644
--- a/src/pywriter/model/splitter.py
+++ b/src/pywriter/model/splitter.py
@@ -58,7 +58,7 @@ class Splitter:
             newChapter.title = title
             newChapter.desc = desc
             newChapter.chLevel = level
-            newChapter.chType = 0
+            newChapter.chType = file.novel.chapters[chId].chType
             file.novel.chapters[chapterId] = newChapter
 
         def create_scene(sceneId: str, parent: str, splitCount: int, title: str, desc: str):
-- 
2.43.0


From 99b3369a870c7fd13b805020e499c7abaa842c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:00 +0000
Subject: [PATCH 27/71] fix: the description of a new chapter or scene was cut
 off at the second divider sign

---
 src/pywriter/model/splitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/model/splitter.py b/src/pywriter/model/splitter.py
index f9f4b3b..ada429c 100644
--- a/src/pywriter/model/splitter.py
+++ b/src/pywriter/model/splitter.py
@@ -129,7 +129,7 @@ class Splitter:
 
                 # Search scene content for dividers.
                 for line in lines:
-                    heading = line.strip('# ').split(self.DESC_SEPARATOR)
+                    heading = line.strip('# ').split(self.DESC_SEPARATOR, 1)
                     title = heading[0]
                     try:
                         desc = heading[1]
-- 
2.43.0


From 5d0c8467dba0f3331a7339f5a438a9dfdc5b2700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:49 +0000
Subject: [PATCH 28/71] fix: import quotations and list items at the beginning
 of a chapter of a work in progress

---
 src/pywriter/odt_r/odt_r_import.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_r_import.py b/src/pywriter/odt_r/odt_r_import.py
index bd2f7a0..b2bcb38 100644
--- a/src/pywriter/odt_r/odt_r_import.py
+++ b/src/pywriter/odt_r/odt_r_import.py
@@ -131,7 +131,7 @@ class OdtRImport(OdtRFormatted):
         
         Overrides the superclass method.
         """
-        if tag == 'p':
+        if tag in ('p', 'blockquote', 'li'):
             if self._scId is None and self._chId is not None:
                 self._lines = []
                 self._scCount += 1
@@ -141,6 +141,7 @@ class OdtRImport(OdtRFormatted):
                 self.novel.scenes[self._scId].status = 1
                 self.novel.scenes[self._scId].scType = 0
                 self.novel.scenes[self._scId].title = f'{_("Scene")} {self._scCount}'
+        if tag == 'p':
             try:
                 if attrs[0][0] == 'lang':
                     self._language = attrs[0][1]
-- 
2.43.0


From ef060396ce0c2b87c98576090862c384f39d86ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:49 +0000
Subject: [PATCH 29/71] fix: separate quotations and subheadings when importing
 an outline

---
 src/pywriter/odt_r/odt_r_outline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_r_outline.py b/src/pywriter/odt_r/odt_r_outline.py
index 1ef2e6f..0174497 100644
--- a/src/pywriter/odt_r/odt_r_outline.py
+++ b/src/pywriter/odt_r/odt_r_outline.py
@@ -64,7 +64,7 @@ class OdtROutline(OdtReader):
         Overrides the superclass method.
         """
         text = ''.join(self._lines)
-        if tag == 'p':
+        if tag in ('p', 'blockquote', 'h4', 'h5', 'h6'):
             text = f'{text.strip()}\n'
             self._lines = [text]
             if self._scId is not None:
-- 
2.43.0


From 7adec009d07b7c959026cacc36d0fd984bd88c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:59 +0000
Subject: [PATCH 30/71] fix: import subheadings of a work in progress as
 paragraphs

---
 src/pywriter/odt_r/odt_r_import.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_import.py b/src/pywriter/odt_r/odt_r_import.py
index b2bcb38..85248c7 100644
--- a/src/pywriter/odt_r/odt_r_import.py
+++ b/src/pywriter/odt_r/odt_r_import.py
@@ -34,6 +34,7 @@ class OdtRImport(OdtRFormatted):
     DESCRIPTION = _('Work in progress')
     SUFFIX = ''
     _SCENE_DIVIDER = '* * *'
+    _SUBHEADINGS = ('h3', 'h4', 'h5', 'h6')
     _LOW_WORDCOUNT = 10
 
     def __init__(self, filePath, **kwargs):
@@ -81,6 +82,7 @@ class OdtRImport(OdtRFormatted):
         """
         if self._scId is not None and self._SCENE_DIVIDER in data:
             self._scId = None
+            self._lines = []
         else:
             self._lines.append(data)
 
@@ -92,7 +94,10 @@ class OdtRImport(OdtRFormatted):
 
         Overrides the superclass method.
         """
-        if tag in ('p', 'blockquote'):
+        if tag in self._SUBHEADINGS and self._scId is None and self._chId is not None:
+            if ''.join(self._lines).strip() not in ('', self._SCENE_DIVIDER):
+                self._create_scene()
+        if tag in ('p', 'blockquote') or tag in self._SUBHEADINGS:
             if self._language:
                 self._lines.append(f'[/lang={self._language}]')
                 self._language = ''
@@ -134,13 +139,7 @@ class OdtRImport(OdtRFormatted):
         if tag in ('p', 'blockquote', 'li'):
             if self._scId is None and self._chId is not None:
                 self._lines = []
-                self._scCount += 1
-                self._scId = str(self._scCount)
-                self.novel.scenes[self._scId] = Scene()
-                self.novel.chapters[self._chId].srtScenes.append(self._scId)
-                self.novel.scenes[self._scId].status = 1
-                self.novel.scenes[self._scId].scType = 0
-                self.novel.scenes[self._scId].title = f'{_("Scene")} {self._scCount}'
+                self._create_scene()
         if tag == 'p':
             try:
                 if attrs[0][0] == 'lang':
@@ -174,6 +173,9 @@ class OdtRImport(OdtRFormatted):
             else:
                 self.novel.chapters[self._chId].chLevel = 0
             self._heading = True
+        elif tag in self._SUBHEADINGS:
+            if self._scId is None:
+                self._lines = []
         elif tag == 'div':
             self._scId = None
             self._chId = None
@@ -216,3 +218,13 @@ class OdtRImport(OdtRFormatted):
         self.novel.languages = []
         super().read()
 
+    def _create_scene(self):
+        """Add a new scene to the current chapter."""
+        self._scCount += 1
+        self._scId = str(self._scCount)
+        self.novel.scenes[self._scId] = Scene()
+        self.novel.chapters[self._chId].srtScenes.append(self._scId)
+        self.novel.scenes[self._scId].status = 1
+        self.novel.scenes[self._scId].scType = 0
+        self.novel.scenes[self._scId].title = f'{_("Scene")} {self._scCount}'
+
-- 
2.43.0


From 3d00f53043b6a86c00026c239e631421f12ea206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:22 +0000
Subject: [PATCH 31/71] fix: find the project of a document whose path contains
 the suffix elsewhere

---
 src/pywriter/converter/import_target_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/converter/import_target_factory.py b/src/pywriter/converter/import_target_factory.py
index 55e7c35..7c6a389 100644
--- a/src/pywriter/converter/import_target_factory.py
+++ b/src/pywriter/converter/import_target_factory.py
@@ -40,7 +40,7 @@ class ImportTargetFactory(FileFactory):
             e = fileName.split(sourceSuffix)
             if len(e) > 1:
                 e.pop()
-            ywPathBasis = ''.join(e)
+            ywPathBasis = sourceSuffix.join(e)
         else:
             ywPathBasis = fileName
 
-- 
2.43.0


From 8553a21bd3dc7a6b39f855447c5eae5dbab0b3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:22 +0000
Subject: [PATCH 32/71] fix: report unsupported files if the converter cannot
 create projects

---
 src/pywriter/converter/yw_cnv_ff.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pywriter/converter/yw_cnv_ff.py b/src/pywriter/converter/yw_cnv_ff.py
index 13b0418..b3ec362 100644
--- a/src/pywriter/converter/yw_cnv_ff.py
+++ b/src/pywriter/converter/yw_cnv_ff.py
@@ -76,6 +76,9 @@ class YwCnvFf(YwCnvUi):
             except Error:
                 # A new yWriter project might be required.
                 try:
+                    if self.newProjectFactory is None:
+                        raise Error(f'{_("File type is not supported")}: "{norm_path(sourcePath)}".')
+
                     source, target = self.newProjectFactory.make_file_objects(sourcePath, **kwargs)
                 except Error as ex:
                     self.ui.set_info_how(f'!{str(ex)}')
-- 
2.43.0


From 1bfbe46e53c39b04b85de3376303598c87371a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:25 +0000
Subject: [PATCH 33/71] fix: keep the path of the document if writing its
 content fails

---
 src/pywriter/odf/odf_file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odf/odf_file.py b/src/pywriter/odf/odf_file.py
index 7657d37..2778ab9 100644
--- a/src/pywriter/odf/odf_file.py
+++ b/src/pywriter/odf/odf_file.py
@@ -67,8 +67,10 @@ class OdfFile(FileExport):
         #--- Add "content.xml" to the temporary directory.
         self._originalPath = self._filePath
         self._filePath = f'{self._tempDir}/content.xml'
-        self.write_content_xml()
-        self._filePath = self._originalPath
+        try:
+            self.write_content_xml()
+        finally:
+            self._filePath = self._originalPath
 
         #--- Pack the contents of the temporary directory into the ODF file.
         workdir = os.getcwd()
-- 
2.43.0


From abbdd191d15f4d7b4423a1af9affa0239b9f1569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:25 +0000
Subject: [PATCH 34/71] fix: do not leave an incomplete document if packing
 fails

---
 src/pywriter/odf/odf_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pywriter/odf/odf_file.py b/src/pywriter/odf/odf_file.py
index 2778ab9..60e1553 100644
--- a/src/pywriter/odf/odf_file.py
+++ b/src/pywriter/odf/odf_file.py
@@ -91,6 +91,8 @@ class OdfFile(FileExport):
             os.chdir(workdir)
             if backedUp:
                 os.replace(f'{self.filePath}.bak', self.filePath)
+            elif os.path.isfile(self.filePath):
+                os.remove(self.filePath)
             raise Error(f'{_("Cannot create file")}: "{norm_path(self.filePath)}".')
 
         #--- Remove temporary data.
-- 
2.43.0


From 53630347147ab5fa41233cfb36dbdca2fdded61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:50 +0000
Subject: [PATCH 35/71] fix: convert comments and notes of exported manuscripts
 field by field, not in the whole document

---
 src/pywriter/odt_w/odt_w_export.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_export.py b/src/pywriter/odt_w/odt_w_export.py
index 456a6fc..a77306d 100644
--- a/src/pywriter/odt_w/odt_w_export.py
+++ b/src/pywriter/odt_w/odt_w_export.py
@@ -49,6 +49,8 @@ class OdtWExport(OdtWFormatted):
         if not quick:
             text = self._remove_inline_code(text)
         text = super()._convert_from_yw(text, quick)
+        if not quick:
+            text = self._convert_comments(text)
         return(text)
 
     def _get_chapterMapping(self, chId, chapterNumber):
@@ -79,6 +81,17 @@ class OdtWExport(OdtWFormatted):
                 ]
 
     def _get_text(self):
+        """Call all processing methods.
+        
+        Reset the document-wide note numbering.
+        Extends the superclass method.
+        """
+        self._noteCounter = 0
+        self._noteNumber = 0
+        return super()._get_text()
+
+    def _convert_comments(self, text):
+        """Return text with comments, footnotes, and endnotes converted to ODT."""
 
         def replace_note(match):
             noteType = match.group(1)
@@ -101,20 +114,12 @@ class OdtWExport(OdtWFormatted):
                     f'text:label="{noteLabel}">*</text:note-citation><text:note-body>'
                     f'<text:p text:style-name="{noteStyle}">{text}</text:p></text:note-body></text:note>')
 
-        text = super()._get_text()
-
-        #--- Convert comments, footnotes, and endnotes.
-        # This is done once for the entire document because of the document-wide note numbering.
-        if text.find('/*') > 0:
-            text = text.replace('\r', '@r@').replace('\n', '@n@')
-            self._noteCounter = 0
-            self._noteNumber = 0
+        if '/*' in text:
             author = escape(self.novel.authorName or '').replace('\\', r'\\')
             simpleComment = (f'<office:annotation><dc:creator>{author}'
                              '</dc:creator><text:p>\\1</text:p></office:annotation>'
                              )
-            text = re.sub(r'\/\* *@([ef]n\**) (.*?)\*\/', replace_note, text)
-            text = re.sub(r'\/\*(.*?)\*\/', simpleComment, text)
-            text = text.replace(r'@r@', '\r').replace('@n@', '\n')
+            text = re.sub(r'\/\* *@([ef]n\**) (.*?)\*\/', replace_note, text, flags=re.DOTALL)
+            text = re.sub(r'\/\*(.*?)\*\/', simpleComment, text, flags=re.DOTALL)
         return text
 
-- 
2.43.0


From 993ab9a82d7d9d6867614b5c9dc2bb4bf5174070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:50 +0000
Subject: [PATCH 36/71] fix: keep brackets in the titles of exported ODT
 documents

---
 src/pywriter/odt_w/odt_w_formatted.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index d48ffbd..182eb72 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -106,9 +106,10 @@ class OdtWFormatted(OdtWriter):
             for yw, od in odtReplacements:
                 text = text.replace(yw, od)
 
-            # Remove highlighting, alignment,
-            # strikethrough, and underline tags.
-            text = re.sub(r'\[\/*[h|c|r|s|u]\d*\]', '', text)
+            if not quick:
+                # Remove highlighting, alignment,
+                # strikethrough, and underline tags.
+                text = re.sub(r'\[\/*[h|c|r|s|u]\d*\]', '', text)
         else:
             text = ''
         return text
-- 
2.43.0


From 9de92ecdb2cd37279fcb4317a45a63cdf60dc26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:50 +0000
Subject: [PATCH 37/71] fix: do not convert markup in the titles of the
 document for proof reading

---
 src/pywriter/odt_w/odt_w_proof.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index ae3adda..df730fb 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -44,11 +44,14 @@ class OdtWProof(OdtWFormatted):
             text -- string to convert.
         
         Optional arguments:
-            quick: bool -- This argument is not used here.
+            quick: bool -- if True, apply XML escaping only (for titles etc.).
         
         Apply direct formatting instead of the emphasizing character styles.
         Overrides the superclass method.
         """
+        if quick:
+            return super()._convert_from_yw(text, quick)
+
         if text:
             # Apply XML predefined entities.
             odtReplacements = [
-- 
2.43.0


From 3b794e69fb400d4059a5bf6661f0ce8b6abed519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:50 +0000
Subject: [PATCH 38/71] fix: link to the documents of the project if its name
 contains a document suffix

---
 src/pywriter/file/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/file/file.py b/src/pywriter/file/file.py
index 31d763c..24494b8 100644
--- a/src/pywriter/file/file.py
+++ b/src/pywriter/file/file.py
@@ -102,7 +102,7 @@ class File(ABC):
             except:
                 head, tail = os.path.split(filePath)
             self.projectPath = quote(head.replace('\\', '/'), '/:')
-            self.projectName = quote(tail.replace(f'{suffix}{self.EXTENSION}', ''))
+            self.projectName = quote(tail[:-len(f'{suffix}{self.EXTENSION}')])
 
     def read(self):
         """Parse the file and get the instance variables.
-- 
2.43.0


From 10b1c4d73f6fd9753277c424ee1a732faac12817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:50 +0000
Subject: [PATCH 39/71] fix: keep percent signs in configuration settings

---
 src/pywriter/config/configuration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/config/configuration.py b/src/pywriter/config/configuration.py
index 9d62a3b..9f2b668 100644
--- a/src/pywriter/config/configuration.py
+++ b/src/pywriter/config/configuration.py
@@ -45,7 +45,7 @@ class Configuration:
             
         Settings and options that can not be read in, remain unchanged.
         """
-        config = ConfigParser()
+        config = ConfigParser(interpolation=None)
         config.read(iniFile, encoding='utf-8')
         if config.has_section(self._sLabel):
             section = config[self._sLabel]
@@ -76,7 +76,7 @@ class Configuration:
         Positional arguments:
             iniFile: str -- path configuration file path.
         """
-        config = ConfigParser()
+        config = ConfigParser(interpolation=None)
         if self.settings:
             config.add_section(self._sLabel)
             for settingId in self.settings:
-- 
2.43.0


From 367747e52842303b0fb42bf05854ae8cdbb80672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:50 +0000
Subject: [PATCH 40/71] fix: keep options of a configuration file that can not
 be read

---
 src/pywriter/config/configuration.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/config/configuration.py b/src/pywriter/config/configuration.py
index 9f2b668..45a1efc 100644
--- a/src/pywriter/config/configuration.py
+++ b/src/pywriter/config/configuration.py
@@ -56,7 +56,11 @@ class Configuration:
             section = config[self._oLabel]
             for option in self.options:
                 fallback = self.options[option]
-                self.options[option] = section.getboolean(option, fallback)
+                try:
+                    self.options[option] = section.getboolean(option, fallback)
+                except ValueError:
+                    # Not a boolean: leave the option unchanged.
+                    pass
 
     def set(self, settings=None, options=None):
         """Set the entire configuration without writing the INI file.
-- 
2.43.0


From 518d9c12a3876a8a533521f3fa8fc1174ac8539a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:50 +0000
Subject: [PATCH 41/71] fix: do not let a shell interpret the path of a
 document to open

---
 src/pywriter/file/doc_open.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/file/doc_open.py b/src/pywriter/file/doc_open.py
index 031b0d3..97a814e 100644
--- a/src/pywriter/file/doc_open.py
+++ b/src/pywriter/file/doc_open.py
@@ -5,6 +5,7 @@ For further information see https://github.com/peter88213/PyWriter
 Published under the MIT License (https://opensource.org/licenses/mit-license.php)
 """
 import os
+import subprocess
 from pywriter.pywriter_globals import *
 
 
@@ -15,11 +16,11 @@ def open_document(document):
         # Windows
     except:
         try:
-            os.system('xdg-open "%s"' % norm_path(document))
+            subprocess.call(['xdg-open', norm_path(document)])
             # Linux
         except:
             try:
-                os.system('open "%s"' % norm_path(document))
+                subprocess.call(['open', norm_path(document)])
                 # Mac
             except:
                 pass
-- 
2.43.0


From b438ea766d43f03b0de9c6dda197b8140731b71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:50 +0000
Subject: [PATCH 42/71] fix: postprocess the yWriter data files

---
 src/pywriter/yw/data_files.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pywriter/yw/data_files.py b/src/pywriter/yw/data_files.py
index 078f919..b369608 100644
--- a/src/pywriter/yw/data_files.py
+++ b/src/pywriter/yw/data_files.py
@@ -73,3 +73,4 @@ class DataFiles(Yw7File):
         except(PermissionError):
             raise Error(f'{_("File is write protected")}: "{norm_path(itemPath)}".')
 
+        self._postprocess_xml_file(ywProject.filePath)
-- 
2.43.0


From 39fb7f776b10ef2237e0675ce03f4c38e0ea33b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:50 +0000
Subject: [PATCH 43/71] fix: reset the custom variables of project notes

---
 src/pywriter/yw/yw7_purge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/yw/yw7_purge.py b/src/pywriter/yw/yw7_purge.py
index 68119f5..c983e21 100644
--- a/src/pywriter/yw/yw7_purge.py
+++ b/src/pywriter/yw/yw7_purge.py
@@ -52,8 +52,8 @@ def reset_custom_variables(prjFile):
                 hasChanged = True
     for pnId in prjFile.novel.projectNotes:
         for field in prjFile.PNT_KWVAR:
-            if prjFile.novel.projectnotes[pnId].kwVar.get(field, None):
-                prjFile.novel.projectnotes[pnId].kwVar[field] = ''
+            if prjFile.novel.projectNotes[pnId].kwVar.get(field, None):
+                prjFile.novel.projectNotes[pnId].kwVar[field] = ''
                 hasChanged = True
     return hasChanged
 
-- 
2.43.0


From 17c60844e59824c1a0363497474f3b65d3dda48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:50 +0000
Subject: [PATCH 44/71] fix: read all project notes if one of them has custom
 fields

---
 src/pywriter/yw/yw7_file.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index a8f4319..d295c9f 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1357,15 +1357,16 @@ class Yw7File(File):
                     if xmlProjectnote.find('Desc') is not None:
                         self.novel.projectNotes[pnId].desc = xmlProjectnote.find('Desc').text
 
-                #--- Initialize project note custom fields.
-                for fieldName in self.PNT_KWVAR:
-                    self.novel.projectNotes[pnId].kwVar[fieldName] = None
-
-                #--- Read project note custom fields.
-                for pnFields in xmlProjectnote.findall('Fields'):
-                    field = pnFields.find(fieldName)
-                    if field is not None:
-                        self.novel.projectNotes[pnId].kwVar[fieldName] = field.text
+                    #--- Initialize project note custom fields.
+                    for fieldName in self.PNT_KWVAR:
+                        self.novel.projectNotes[pnId].kwVar[fieldName] = None
+
+                    #--- Read project note custom fields.
+                    for pnFields in xmlProjectnote.findall('Fields'):
+                        for fieldName in self.PNT_KWVAR:
+                            field = pnFields.find(fieldName)
+                            if field is not None:
+                                self.novel.projectNotes[pnId].kwVar[fieldName] = field.text
         except:
             pass
 
-- 
2.43.0


From 5489def9888ab50edaf73139e8e963abdd9c5f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:50 +0000
Subject: [PATCH 45/71] fix: remove arcs and mode of the scenes when custom
 variables are reset

---
 src/pywriter/yw/yw7_purge.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pywriter/yw/yw7_purge.py b/src/pywriter/yw/yw7_purge.py
index c983e21..2878a43 100644
--- a/src/pywriter/yw/yw7_purge.py
+++ b/src/pywriter/yw/yw7_purge.py
@@ -35,6 +35,13 @@ def reset_custom_variables(prjFile):
             if prjFile.novel.scenes[scId].kwVar.get(field, None):
                 prjFile.novel.scenes[scId].kwVar[field] = ''
                 hasChanged = True
+        # Otherwise, Yw7File.write() would restore the scene fields from the instance variables.
+        if prjFile.novel.scenes[scId].scnArcs:
+            prjFile.novel.scenes[scId].scnArcs = None
+            hasChanged = True
+        if prjFile.novel.scenes[scId].scnMode:
+            prjFile.novel.scenes[scId].scnMode = None
+            hasChanged = True
     for crId in prjFile.novel.characters:
         for field in prjFile.CRT_KWVAR:
             if prjFile.novel.characters[crId].kwVar.get(field, None):
-- 
2.43.0


From 5cb0b3ef65552e606c93efc804166a2c2ed3d802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:50 +0000
Subject: [PATCH 46/71] fix: save projects that have incomplete project
 variables

---
 src/pywriter/yw/yw7_file.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index d295c9f..6d6d375 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -708,6 +708,13 @@ class Yw7File(File):
             ET.SubElement(xmlProjectvar, 'Desc').text = desc
             ET.SubElement(xmlProjectvar, 'Tags').text = tags
 
+        def set_projectvariable(xmlProjectvar, desc):
+            xmlDesc = xmlProjectvar.find('Desc')
+            if xmlDesc is None:
+                # Empty descriptions may be missing.
+                xmlDesc = ET.SubElement(xmlProjectvar, 'Desc')
+            xmlDesc.text = desc
+
         def build_item_subtree(xmlItm, prjItm):
             if prjItm.title is not None:
                 ET.SubElement(xmlItm, 'Title').text = prjItm.title
@@ -993,8 +1000,8 @@ class Yw7File(File):
             hasLanguageCode = False
             hasCountryCode = False
             for xmlProjectvar in xmlProjectvars.findall('PROJECTVAR'):
-                prjVars.append(xmlProjectvar.find('ID').text)
-                title = xmlProjectvar.find('Title').text
+                prjVars.append(xmlProjectvar.findtext('ID'))
+                title = xmlProjectvar.findtext('Title')
 
                 # Collect language codes.
                 if title and title.startswith('lang='):
@@ -1006,11 +1013,11 @@ class Yw7File(File):
 
                 # Get the document's locale.
                 elif title == 'Language':
-                    xmlProjectvar.find('Desc').text = self.novel.languageCode
+                    set_projectvariable(xmlProjectvar, self.novel.languageCode)
                     hasLanguageCode = True
 
                 elif title == 'Country':
-                    xmlProjectvar.find('Desc').text = self.novel.countryCode
+                    set_projectvariable(xmlProjectvar, self.novel.countryCode)
                     hasCountryCode = True
 
             # Define project variables for the missing locale.
-- 
2.43.0


From 43ea82671cbcef0d3760c1aafcbc596f2fc26e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:50 +0000
Subject: [PATCH 47/71] fix: do not define a language again whose code contains
 an equals sign

---
 src/pywriter/yw/yw7_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 6d6d375..1aa39e1 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1006,7 +1006,7 @@ class Yw7File(File):
                 # Collect language codes.
                 if title and title.startswith('lang='):
                     try:
-                        __, langCode = title.split('=')
+                        __, langCode = title.split('=', 1)
                         languages.remove(langCode)
                     except:
                         pass
@@ -1395,7 +1395,7 @@ class Yw7File(File):
 
                     elif title and title.startswith('lang='):
                         try:
-                            __, langCode = title.split('=')
+                            __, langCode = title.split('=', 1)
                             if self.novel.languages is None:
                                 self.novel.languages = []
                             self.novel.languages.append(langCode)
-- 
2.43.0


From c6793d1779d13832f7a2e83cc8373d72b1646788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:54 +0000
Subject: [PATCH 48/71] fix: remove the incomplete file when a text export
 fails

---
 src/pywriter/file/file_export.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pywriter/file/file_export.py b/src/pywriter/file/file_export.py
index 90d8d44..5240cf6 100644
--- a/src/pywriter/file/file_export.py
+++ b/src/pywriter/file/file_export.py
@@ -98,6 +98,8 @@ class FileExport(File):
         except:
             if backedUp:
                 os.replace(f'{self.filePath}.bak', self.filePath)
+            elif os.path.isfile(self.filePath):
+                os.remove(self.filePath)
             raise Error(f'{_("Cannot write file")}: "{norm_path(self.filePath)}".')
 
     def _get_fileHeaderMapping(self):
-- 
2.43.0


From c8442fb9bde2ded268496c787912ca40f8ddc7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:54 +0000
Subject: [PATCH 49/71] fix: do not escape quotes of messages twice in the
 template file

---
 src/pgettext.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pgettext.py b/src/pgettext.py
index fb7201b..4f18caf 100644
--- a/src/pgettext.py
+++ b/src/pgettext.py
@@ -58,7 +58,7 @@ class PotFile:
                 }
         hdTemplate = Template(potHeader)
         potText = hdTemplate.safe_substitute(msgMap)
-        self.msgList = list(set(self.msgList))
+        self.msgList = list(set(message.replace('\\"', '"') for message in self.msgList))
         self.msgList.sort()
         for message in self.msgList:
             message = message.replace('"', '\\"')
-- 
2.43.0


From 89f4ec34cad66f5cbc2305a18328eca15b14b9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:53 +0000
Subject: [PATCH 50/71] fix: let the inliner find the modules on all platforms

---
 src/inliner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inliner.py b/src/inliner.py
index 1caa6fb..a737b78 100644
--- a/src/inliner.py
+++ b/src/inliner.py
@@ -62,7 +62,7 @@ def inline_module(file, package, packagePath, text, processedModules, copyPyWrit
                 if 'import' in line:
                     importModule = re.match(r'from (.+?) import.+', line)
                     if (importModule is not None) and (package in importModule.group(1)):
-                        packageName = re.sub(r'\.', r'\/', importModule.group(1))
+                        packageName = re.sub(r'\.', '/', importModule.group(1))
                         moduleName = f'{packagePath}{packageName}'
                         if not (moduleName in processedModules):
                             processedModules.append(moduleName)
-- 
2.43.0


From c209ab7c898c0aec9cda5757dd5d706a68aa547d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:53 +0000
Subject: [PATCH 51/71] fix: keep lines of code whose name begins with import
 when inlining

---
 src/inliner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inliner.py b/src/inliner.py
index a737b78..e922b03 100644
--- a/src/inliner.py
+++ b/src/inliner.py
@@ -68,7 +68,7 @@ def inline_module(file, package, packagePath, text, processedModules, copyPyWrit
                             processedModules.append(moduleName)
                             text = inline_module(
                                 f'{moduleName}.py', package, packagePath, text, processedModules, copyPyWriter)
-                    elif line.lstrip().startswith('import'):
+                    elif line.lstrip().startswith('import '):
                         moduleName = line.replace('import ', '').rstrip()
                         if not (moduleName in processedModules):
                             processedModules.append(moduleName)
-- 
2.43.0


From 5db6df968831ad9d7de37bb112db6d8d7d3b7dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:53 +0000
Subject: [PATCH 52/71] fix: keep the order of chapter data if a title or
 description is empty

---
 src/pywriter/yw/yw7_file.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 1aa39e1..8a22d82 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -216,8 +216,9 @@ class Yw7File(File):
                     parent.insert(index, subelement)
                     subelement.text = text
                     index += 1
-            elif text is not None:
-                subelement.text = text
+            else:
+                if text is not None:
+                    subelement.text = text
                 index += 1
             return index
 
-- 
2.43.0


From 63ebd131046a68545e0b12b6a847a41bf0c53a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:58 +0000
Subject: [PATCH 53/71] fix: report malformed or incomplete project files
 instead of failing

---
 src/pywriter/yw/yw7_file.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 8a22d82..e1ea620 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -155,18 +155,26 @@ class Yw7File(File):
             root = self.tree.getroot()
         else:
             xmlText = re.sub('[\x00-\x08\x0b-\x0c\x0e-\x1f]', '', xmlText)
-            root = ET.fromstring(xmlText)
+            try:
+                root = ET.fromstring(xmlText)
+            except Exception as ex:
+                raise Error(f'{_("Can not process file")} - {str(ex)}')
+
             xmlText = None
             # saving memory
             self.tree = ET.ElementTree(root)
-        self._read_project(root)
-        self._read_locations(root)
-        self._read_items(root)
-        self._read_characters(root)
-        self._read_projectvars(root)
-        self._read_projectnotes(root)
-        self._read_scenes(root)
-        self._read_chapters(root)
+        try:
+            self._read_project(root)
+            self._read_locations(root)
+            self._read_items(root)
+            self._read_characters(root)
+            self._read_projectvars(root)
+            self._read_projectnotes(root)
+            self._read_scenes(root)
+            self._read_chapters(root)
+        except Exception as ex:
+            raise Error(f'{_("Can not process file")} - {str(ex)}')
+
         self.adjust_scene_types()
 
         #--- Set custom instance variables.
-- 
2.43.0


From ebf2413e291236a9b29ed9defe4635e9bd899a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:58 +0000
Subject: [PATCH 54/71] fix: import passages whose language has no country

---
 src/pywriter/odt_r/odt_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index ad9b231..765ee4d 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -217,7 +217,7 @@ class OdtParser(sax.ContentHandler):
                 self._strongTags.append(self._style)
             if xmlAttributes.get('fo:language', False):
                 lngCode = xmlAttributes['fo:language']
-                ctrCode = xmlAttributes['fo:country']
+                ctrCode = xmlAttributes.get('fo:country', 'none')
                 if ctrCode != 'none':
                     locale = f'{lngCode}-{ctrCode}'
                 else:
-- 
2.43.0


From d1088161c7f977a9417019453a05f586c06f171c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:58 +0000
Subject: [PATCH 55/71] fix: import documents whose default style has no text
 properties

---
 src/pywriter/odt_r/odt_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 765ee4d..5b1cef1 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -75,6 +75,9 @@ class OdtParser(sax.ContentHandler):
         for defaultStyle in styles.findall('style:default-style', namespaces):
             if defaultStyle.get(f'{{{namespaces["style"]}}}family') == 'paragraph':
                 textProperties = defaultStyle.find('style:text-properties', namespaces)
+                if textProperties is None:
+                    break
+
                 lngCode = textProperties.get(f'{{{namespaces["fo"]}}}language')
                 ctrCode = textProperties.get(f'{{{namespaces["fo"]}}}country')
                 self._client.handle_starttag('body', [('language', lngCode), ('country', ctrCode)])
-- 
2.43.0


From 1fe153b906c43c8c861f6c8008c3c1b5b7184d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:58 +0000
Subject: [PATCH 56/71] fix: split scenes that have no status

---
 src/pywriter/model/splitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/model/splitter.py b/src/pywriter/model/splitter.py
index ada429c..c0f0fdf 100644
--- a/src/pywriter/model/splitter.py
+++ b/src/pywriter/model/splitter.py
@@ -97,7 +97,7 @@ class Splitter:
                 parent.outcome = f'{WARNING}{parent.outcome}'
 
             # Reset the parent's status to Draft, if not Outline.
-            if parent.status > 2:
+            if parent.status is not None and parent.status > 2:
                 parent.status = 2
             newScene.status = parent.status
             newScene.scType = parent.scType
-- 
2.43.0


From b0d4faa973557ffdd815cb3150a49858b199cc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:58 +0000
Subject: [PATCH 57/71] fix: export scenes that have no status

---
 src/pywriter/file/file_export.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/file/file_export.py b/src/pywriter/file/file_export.py
index 5240cf6..2bd9e30 100644
--- a/src/pywriter/file/file_export.py
+++ b/src/pywriter/file/file_export.py
@@ -504,6 +504,11 @@ class FileExport(File):
             minutes = ''
         duration = f'{days}{hours}{minutes}'
 
+        if self.novel.scenes[scId].status is not None:
+            status = Scene.STATUS[self.novel.scenes[scId].status]
+        else:
+            status = ''
+
         sceneMapping = dict(
             ID=scId,
             SceneNumber=sceneNumber,
@@ -513,7 +518,7 @@ class FileExport(File):
             WordsTotal=wordsTotal,
             LetterCount=str(self.novel.scenes[scId].letterCount),
             LettersTotal=lettersTotal,
-            Status=Scene.STATUS[self.novel.scenes[scId].status],
+            Status=status,
             SceneContent=self._convert_from_yw(self.novel.scenes[scId].sceneContent),
             FieldTitle1=self._convert_from_yw(self.novel.fieldTitle1, True),
             FieldTitle2=self._convert_from_yw(self.novel.fieldTitle2, True),
-- 
2.43.0


From 5ce58844c98412236abd656e4ddacf50c0602f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:59 +0000
Subject: [PATCH 58/71] fix: do not divide texts at the boundaries of the XML
 parser's buffer

---
 src/pywriter/odt_r/odt_parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 5b1cef1..a458855 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -103,7 +103,12 @@ class OdtParser(sax.ContentHandler):
                     self._client.handle_starttag('meta', [('', 'description'), ('', desc.text)])
 
         #--- Parse 'content.xml'.
-        sax.parseString(content, self)
+        # Feed the parser with the whole document, because sax.parseString()
+        # divides texts at the boundaries of its buffer.
+        parser = sax.make_parser()
+        parser.setContentHandler(self)
+        parser.feed(content)
+        parser.close()
 
     def characters(self, content):
         """Receive notification of character data.
-- 
2.43.0


From 69b244c5e6332417a8b012e57550cb788ee22c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:59 +0000
Subject: [PATCH 59/71] fix: keep brackets around vertical bars on export

---
 src/pywriter/odt_w/odt_w_formatted.py | 2 +-
 src/pywriter/odt_w/odt_w_proof.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index 182eb72..036af2d 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -109,7 +109,7 @@ class OdtWFormatted(OdtWriter):
             if not quick:
                 # Remove highlighting, alignment,
                 # strikethrough, and underline tags.
-                text = re.sub(r'\[\/*[h|c|r|s|u]\d*\]', '', text)
+                text = re.sub(r'\[\/*[hcrsu]\d*\]', '', text)
         else:
             text = ''
         return text
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index df730fb..20f3770 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -118,7 +118,7 @@ class OdtWProof(OdtWFormatted):
 
             # Remove highlighting, alignment,
             # strikethrough, and underline tags.
-            text = re.sub(r'\[\/*[h|c|r|s|u]\d*\]', '', text)
+            text = re.sub(r'\[\/*[hcrsu]\d*\]', '', text)
         else:
             text = ''
         return text
-- 
2.43.0


From 67e54f7eddfa5169dbe19694cc74ee7c31346035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:59 +0000
Subject: [PATCH 60/71] fix: do not import deleted text from the record of
 changes

---
 src/pywriter/odt_r/odt_parser.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index a458855..3bda398 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -37,6 +37,7 @@ class OdtParser(sax.ContentHandler):
         self._list = False
         self._span = []
         self._style = None
+        self._deleted = False
         self._client = client
 
     def feed_file(self, filePath):
@@ -115,7 +116,9 @@ class OdtParser(sax.ContentHandler):
         
         Overrides the xml.sax.ContentHandler method             
         """
-        if self._commentParagraphCount is not None:
+        if self._deleted:
+            pass
+        elif self._commentParagraphCount is not None:
             if self._commentParagraphCount == 1:
                 self._comment = f'{self._comment}{content}'
         elif self._paragraph:
@@ -128,7 +131,11 @@ class OdtParser(sax.ContentHandler):
         
         Overrides the xml.sax.ContentHandler method     
         """
-        if name == 'text:p':
+        if name == 'text:tracked-changes':
+            self._deleted = False
+        elif self._deleted:
+            pass
+        elif name == 'text:p':
             if self._commentParagraphCount is None:
                 while self._span:
                     self._close_span()
@@ -167,7 +174,12 @@ class OdtParser(sax.ContentHandler):
             attrKey, attrValue = attribute
             xmlAttributes[attrKey] = attrValue
         style = xmlAttributes.get('text:style-name', '')
-        if name == 'text:p':
+        if name == 'text:tracked-changes':
+            # the record of changes contains deleted text
+            self._deleted = True
+        elif self._deleted:
+            pass
+        elif name == 'text:p':
             param = [()]
             if style in self._languageTags:
                 param = [('lang', self._languageTags[style])]
-- 
2.43.0


From f288a5c781b55bc6ba4d95ea904fe8d234157a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:04 +0000
Subject: [PATCH 61/71] fix: do not mix the messages of several translation
 files

---
 src/msgfmt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/msgfmt.py b/src/msgfmt.py
index 3f731e9..86ac04e 100644
--- a/src/msgfmt.py
+++ b/src/msgfmt.py
@@ -116,6 +116,9 @@ def make(filename, outfile):
         print(msg, file=sys.stderr)
         sys.exit(1)
 
+    # Do not mix the messages of several files
+    MESSAGES.clear()
+
     section = msgctxt = None
     fuzzy = 0
 
-- 
2.43.0


From af0ac3c01cb7a917b813be39344b7090b0310f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:04 +0000
Subject: [PATCH 62/71] fix: apply fuzzy marks and contexts to their own entry
 only

---
 src/msgfmt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/msgfmt.py b/src/msgfmt.py
index 86ac04e..42d16c0 100644
--- a/src/msgfmt.py
+++ b/src/msgfmt.py
@@ -146,6 +146,7 @@ def make(filename, outfile):
         if l.startswith('msgctxt'):
             if section == STR:
                 add(msgctxt, msgid, msgstr, fuzzy)
+                fuzzy = 0
             section = CTXT
             l = l[7:]
             msgctxt = b''
@@ -158,6 +159,9 @@ def make(filename, outfile):
                     charset = p.parsestr(msgstr.decode(encoding)).get_content_charset()
                     if charset:
                         encoding = charset
+                # The next entry has its own context and flags
+                msgctxt = None
+                fuzzy = 0
             section = ID
             l = l[5:]
             msgid = msgstr = b''
-- 
2.43.0


From d5472dc37580dfb799796587f3433deecfa7c268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:04 +0000
Subject: [PATCH 63/71] fix: read a project again without keeping what is no
 longer in the file

---
 src/pywriter/yw/yw7_file.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index e1ea620..dc8f54d 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1176,6 +1176,11 @@ class Yw7File(File):
         """Read attributes at project level from the xml element tree."""
         xmlProject = root.find('PROJECT')
 
+        for attribute in ('title', 'authorName', 'authorBio', 'desc', 'fieldTitle1', 'fieldTitle2', 'fieldTitle3', 'fieldTitle4',
+                          'wordCountStart', 'wordTarget', 'languageCode', 'countryCode'):
+            setattr(self.novel, attribute, None)
+            # This is necessary for re-reading.
+
         if xmlProject.find('Title') is not None:
             self.novel.title = xmlProject.find('Title').text
 
@@ -1232,6 +1237,7 @@ class Yw7File(File):
     def _read_locations(self, root):
         """Read locations from the xml element tree."""
         self.novel.srtLocations = []
+        self.novel.locations.clear()
         # This is necessary for re-reading.
         for xmlLocation in root.find('LOCATIONS'):
             lcId = xmlLocation.find('ID').text
@@ -1269,6 +1275,7 @@ class Yw7File(File):
     def _read_items(self, root):
         """Read items from the xml element tree."""
         self.novel.srtItems = []
+        self.novel.items.clear()
         # This is necessary for re-reading.
         for xmlItem in root.find('ITEMS'):
             itId = xmlItem.find('ID').text
@@ -1306,6 +1313,7 @@ class Yw7File(File):
     def _read_characters(self, root):
         """Read characters from the xml element tree."""
         self.novel.srtCharacters = []
+        self.novel.characters.clear()
         # This is necessary for re-reading.
         for xmlCharacter in root.find('CHARACTERS'):
             crId = xmlCharacter.find('ID').text
@@ -1360,6 +1368,7 @@ class Yw7File(File):
     def _read_projectnotes(self, root):
         """Read project notes from the xml element tree."""
         self.novel.srtPrjNotes = []
+        self.novel.projectNotes.clear()
         # This is necessary for re-reading.
 
         try:
@@ -1415,6 +1424,8 @@ class Yw7File(File):
 
     def _read_scenes(self, root):
         """ Read attributes at scene level from the xml element tree."""
+        self.novel.scenes.clear()
+        # This is necessary for re-reading.
         for xmlScene in root.find('SCENES'):
             scId = xmlScene.find('ID').text
             self.novel.scenes[scId] = Scene()
@@ -1600,6 +1611,7 @@ class Yw7File(File):
     def _read_chapters(self, root):
         """Read attributes at chapter level from the xml element tree."""
         self.novel.srtChapters = []
+        self.novel.chapters.clear()
         # This is necessary for re-reading.
         for xmlChapter in root.find('CHAPTERS'):
             chId = xmlChapter.find('ID').text
-- 
2.43.0


From dd816e0bf966300417c11b4da4d1f13bbfd8643b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:32 +0000
Subject: [PATCH 64/71] fix: keep the language of list items on import

---
 src/pywriter/odt_r/odt_parser.py       | 2 +-
 src/pywriter/odt_r/odt_r_import.py     | 6 ++----
 src/pywriter/odt_r/odt_r_manuscript.py | 6 ++----
 src/pywriter/odt_r/odt_r_proof.py      | 6 ++----
 4 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 3bda398..db92783 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -196,7 +196,7 @@ class OdtParser(sax.ContentHandler):
                 self._heading = self._headingTags[style]
                 self._client.handle_starttag(self._heading, [()])
             elif self._list:
-                self._client.handle_starttag('li', [()])
+                self._client.handle_starttag('li', param)
                 self._paragraph = True
             else:
                 self._client.handle_starttag('p', param)
diff --git a/src/pywriter/odt_r/odt_r_import.py b/src/pywriter/odt_r/odt_r_import.py
index 85248c7..ada92ae 100644
--- a/src/pywriter/odt_r/odt_r_import.py
+++ b/src/pywriter/odt_r/odt_r_import.py
@@ -194,10 +194,8 @@ class OdtRImport(OdtRFormatted):
                 elif attr[0] == 'country':
                     if attr[1]:
                         self.novel.countryCode = attr[1]
-        elif tag == 'li':
-                self._lines.append(f'{self._BULLET} ')
-        elif tag == 'blockquote':
-            self._lines.append(f'{self._INDENT} ')
+        elif tag in ('li', 'blockquote'):
+            self._lines.append(f'{self._BULLET} ' if tag == 'li' else f'{self._INDENT} ')
             try:
                 if attrs[0][0] == 'lang':
                     self._language = attrs[0][1]
diff --git a/src/pywriter/odt_r/odt_r_manuscript.py b/src/pywriter/odt_r/odt_r_manuscript.py
index 921ecf2..18f29a1 100644
--- a/src/pywriter/odt_r/odt_r_manuscript.py
+++ b/src/pywriter/odt_r/odt_r_manuscript.py
@@ -129,10 +129,8 @@ class OdtRManuscript(OdtRFormatted):
                 self._lines.append(f'{Splitter.CHAPTER_SEPARATOR} ')
             elif tag == 'h1':
                 self._lines.append(f'{Splitter.PART_SEPARATOR} ')
-            elif tag == 'li':
-                self._lines.append(f'{self._BULLET} ')
-            elif tag == 'blockquote':
-                self._lines.append(f'{self._INDENT} ')
+            elif tag in ('li', 'blockquote'):
+                self._lines.append(f'{self._BULLET} ' if tag == 'li' else f'{self._INDENT} ')
                 try:
                     if attrs[0][0] == 'lang':
                         self._language = attrs[0][1]
diff --git a/src/pywriter/odt_r/odt_r_proof.py b/src/pywriter/odt_r/odt_r_proof.py
index 97b05b6..a93cdd9 100644
--- a/src/pywriter/odt_r/odt_r_proof.py
+++ b/src/pywriter/odt_r/odt_r_proof.py
@@ -96,10 +96,8 @@ class OdtRProof(OdtRFormatted):
             self._lines.append(f'{Splitter.CHAPTER_SEPARATOR} ')
         elif tag == 'h1':
             self._lines.append(f'{Splitter.PART_SEPARATOR} ')
-        elif tag == 'li':
-            self._lines.append(f'{self._BULLET} ')
-        elif tag == 'blockquote':
-            self._lines.append(f'{self._INDENT} ')
+        elif tag in ('li', 'blockquote'):
+            self._lines.append(f'{self._BULLET} ' if tag == 'li' else f'{self._INDENT} ')
             try:
                 if attrs[0][0] == 'lang':
                     self._language = attrs[0][1]
-- 
2.43.0


From 6ae0bccef7224178af0c4e593f47f6d639ab5f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:32 +0000
Subject: [PATCH 65/71] fix: resume the language of a paragraph after a passage
 in another language

---
 src/pywriter/odt_r/odt_r_formatted.py  | 40 ++++++++++++++++++++++++++
 src/pywriter/odt_r/odt_r_import.py     | 23 ++++-----------
 src/pywriter/odt_r/odt_r_manuscript.py | 18 +++---------
 src/pywriter/odt_r/odt_r_proof.py      | 18 +++---------
 4 files changed, 53 insertions(+), 46 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_formatted.py b/src/pywriter/odt_r/odt_r_formatted.py
index cdb28a4..c2514be 100644
--- a/src/pywriter/odt_r/odt_r_formatted.py
+++ b/src/pywriter/odt_r/odt_r_formatted.py
@@ -22,6 +22,17 @@ class OdtRFormatted(OdtReader):
     _BULLET = '-'
     _INDENT = '>'
 
+    def __init__(self, filePath, **kwargs):
+        """Initialize local instance variables for parsing.
+
+        Positional arguments:
+            filePath: str -- path to the file represented by the Novel instance.
+            
+        Extends the superclass constructor.
+        """
+        super().__init__(filePath, **kwargs)
+        self._outerLanguages = []
+
     def read(self):
         """Parse the file and get the instance variables.
         
@@ -34,6 +45,35 @@ class OdtRFormatted(OdtReader):
         sceneSplitter = Splitter()
         self.scenesSplit = sceneSplitter.split_scenes(self)
 
+    def _open_language(self, language):
+        """Begin a passage in another language, interrupting the surrounding one, if any.
+        
+        Positional arguments:
+            language: str -- locale of the passage.
+        """
+        if not language in self.novel.languages:
+            self.novel.languages.append(language)
+        self._end_language()
+        self._outerLanguages.append(self._language)
+        self._language = language
+        self._lines.append(f'[lang={language}]')
+
+    def _close_language(self):
+        """End a passage in another language, resuming the surrounding one, if any."""
+        if self._language:
+            self._end_language()
+            self._language = self._outerLanguages.pop()
+            if self._language:
+                self._lines.append(f'[lang={self._language}]')
+
+    def _end_language(self):
+        """Add the closing tag of the current language, or remove its opening tag, if there is no text in between."""
+        if self._language:
+            if self._lines and self._lines[-1] == f'[lang={self._language}]':
+                self._lines.pop()
+            else:
+                self._lines.append(f'[/lang={self._language}]')
+
     def _cleanup_scene(self, text):
         """Clean up yWriter markup.
         
diff --git a/src/pywriter/odt_r/odt_r_import.py b/src/pywriter/odt_r/odt_r_import.py
index ada92ae..9cbb8af 100644
--- a/src/pywriter/odt_r/odt_r_import.py
+++ b/src/pywriter/odt_r/odt_r_import.py
@@ -98,9 +98,7 @@ class OdtRImport(OdtRFormatted):
             if ''.join(self._lines).strip() not in ('', self._SCENE_DIVIDER):
                 self._create_scene()
         if tag in ('p', 'blockquote') or tag in self._SUBHEADINGS:
-            if self._language:
-                self._lines.append(f'[/lang={self._language}]')
-                self._language = ''
+            self._close_language()
             self._lines.append('\n')
             if self._scId is not None:
                 sceneText = ''.join(self._lines).rstrip()
@@ -117,9 +115,7 @@ class OdtRImport(OdtRFormatted):
         elif tag == 'strong' and not self._heading:
             self._lines.append('[/b]')
         elif tag == 'lang' and not self._heading:
-            if self._language:
-                self._lines.append(f'[/lang={self._language}]')
-                self._language = ''
+            self._close_language()
         elif tag in ('h1', 'h2'):
             self.novel.chapters[self._chId].title = ''.join(self._lines)
             self._lines = []
@@ -143,10 +139,7 @@ class OdtRImport(OdtRFormatted):
         if tag == 'p':
             try:
                 if attrs[0][0] == 'lang':
-                    self._language = attrs[0][1]
-                    if not self._language in self.novel.languages:
-                        self.novel.languages.append(self._language)
-                    self._lines.append(f'[lang={self._language}]')
+                    self._open_language(attrs[0][1])
             except:
                 pass
         elif tag == 'em' and not self._heading:
@@ -155,10 +148,7 @@ class OdtRImport(OdtRFormatted):
             self._lines.append('[b]')
         elif tag == 'lang' and not self._heading:
             if attrs[0][0] == 'lang':
-                self._language = attrs[0][1]
-                if not self._language in self.novel.languages:
-                    self.novel.languages.append(self._language)
-                self._lines.append(f'[lang={self._language}]')
+                self._open_language(attrs[0][1])
         elif tag in ('h1', 'h2'):
             self._scId = None
             self._lines = []
@@ -198,10 +188,7 @@ class OdtRImport(OdtRFormatted):
             self._lines.append(f'{self._BULLET} ' if tag == 'li' else f'{self._INDENT} ')
             try:
                 if attrs[0][0] == 'lang':
-                    self._language = attrs[0][1]
-                    if not self._language in self.novel.languages:
-                        self.novel.languages.append(self._language)
-                    self._lines.append(f'[lang={self._language}]')
+                    self._open_language(attrs[0][1])
             except:
                 pass
         elif tag == 's':
diff --git a/src/pywriter/odt_r/odt_r_manuscript.py b/src/pywriter/odt_r/odt_r_manuscript.py
index 18f29a1..9f4818d 100644
--- a/src/pywriter/odt_r/odt_r_manuscript.py
+++ b/src/pywriter/odt_r/odt_r_manuscript.py
@@ -72,18 +72,14 @@ class OdtRManuscript(OdtRFormatted):
         """
         if self._scId is not None:
             if tag in ('p', 'blockquote'):
-                if self._language:
-                    self._lines.append(f'[/lang={self._language}]')
-                    self._language = ''
+                self._close_language()
                 self._lines.append('\n')
             elif tag == 'em':
                 self._lines.append('[/i]')
             elif tag == 'strong':
                 self._lines.append('[/b]')
             elif tag == 'lang':
-                if self._language:
-                    self._lines.append(f'[/lang={self._language}]')
-                    self._language = ''
+                self._close_language()
             elif tag == 'div':
                 text = ''.join(self._lines)
                 self.novel.scenes[self._scId].sceneContent = self._cleanup_scene(text).rstrip()
@@ -115,10 +111,7 @@ class OdtRManuscript(OdtRFormatted):
             elif tag in ('lang', 'p'):
                 try:
                     if attrs[0][0] == 'lang':
-                        self._language = attrs[0][1]
-                        if not self._language in self.novel.languages:
-                            self.novel.languages.append(self._language)
-                        self._lines.append(f'[lang={self._language}]')
+                        self._open_language(attrs[0][1])
                 except:
                     pass
             elif tag == 'h3':
@@ -133,10 +126,7 @@ class OdtRManuscript(OdtRFormatted):
                 self._lines.append(f'{self._BULLET} ' if tag == 'li' else f'{self._INDENT} ')
                 try:
                     if attrs[0][0] == 'lang':
-                        self._language = attrs[0][1]
-                        if not self._language in self.novel.languages:
-                            self.novel.languages.append(self._language)
-                        self._lines.append(f'[lang={self._language}]')
+                        self._open_language(attrs[0][1])
                 except:
                     pass
         elif tag == 'body':
diff --git a/src/pywriter/odt_r/odt_r_proof.py b/src/pywriter/odt_r/odt_r_proof.py
index a93cdd9..7dd71db 100644
--- a/src/pywriter/odt_r/odt_r_proof.py
+++ b/src/pywriter/odt_r/odt_r_proof.py
@@ -58,17 +58,13 @@ class OdtRProof(OdtRFormatted):
         """
         if tag in ['p', 'h2', 'h1', 'blockquote']:
             self._lines.append('\n')
-            if self._language:
-                self._lines.append(f'[/lang={self._language}]')
-                self._language = ''
+            self._close_language()
         elif tag == 'em':
             self._lines.append('[/i]')
         elif tag == 'strong':
             self._lines.append('[/b]')
         elif tag == 'lang':
-            if self._language:
-                self._lines.append(f'[/lang={self._language}]')
-                self._language = ''
+            self._close_language()
 
     def handle_starttag(self, tag, attrs):
         """Recognize the paragraph's beginning.
@@ -86,10 +82,7 @@ class OdtRProof(OdtRFormatted):
         elif tag in ('lang', 'p'):
             try:
                 if attrs[0][0] == 'lang':
-                    self._language = attrs[0][1]
-                    if not self._language in self.novel.languages:
-                        self.novel.languages.append(self._language)
-                    self._lines.append(f'[lang={self._language}]')
+                    self._open_language(attrs[0][1])
             except:
                 pass
         elif tag == 'h2':
@@ -100,10 +93,7 @@ class OdtRProof(OdtRFormatted):
             self._lines.append(f'{self._BULLET} ' if tag == 'li' else f'{self._INDENT} ')
             try:
                 if attrs[0][0] == 'lang':
-                    self._language = attrs[0][1]
-                    if not self._language in self.novel.languages:
-                        self.novel.languages.append(self._language)
-                    self._lines.append(f'[lang={self._language}]')
+                    self._open_language(attrs[0][1])
             except:
                 pass
         elif tag == 'body':
-- 
2.43.0


From 80f309a4d43f097e4ef688b67a0ef7e709b58a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:32 +0000
Subject: [PATCH 66/71] fix: close the language before the line break when
 importing the proof

---
 src/pywriter/odt_r/odt_r_proof.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_r_proof.py b/src/pywriter/odt_r/odt_r_proof.py
index 7dd71db..efc450e 100644
--- a/src/pywriter/odt_r/odt_r_proof.py
+++ b/src/pywriter/odt_r/odt_r_proof.py
@@ -57,8 +57,8 @@ class OdtRProof(OdtRFormatted):
         Overrides the superclass method.
         """
         if tag in ['p', 'h2', 'h1', 'blockquote']:
-            self._lines.append('\n')
             self._close_language()
+            self._lines.append('\n')
         elif tag == 'em':
             self._lines.append('[/i]')
         elif tag == 'strong':
-- 
2.43.0


From e0db732f261a3f2340420594998861ece245de6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:32 +0000
Subject: [PATCH 67/71] fix: scenes with a day whose time is removed can be
 saved

---
 src/pywriter/yw/yw7_file.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index dc8f54d..b28a6d6 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -439,7 +439,12 @@ class Yw7File(File):
                             xmlScene.find('Day').text = prjScn.day
                         except(AttributeError):
                             ET.SubElement(xmlScene, 'Day').text = prjScn.day
-                    if prjScn.time is not None:
+                    if prjScn.time == '':
+                        # There is a day, but no time.
+                        for tag in ('Hour', 'Minute'):
+                            if xmlScene.find(tag) is not None:
+                                xmlScene.remove(xmlScene.find(tag))
+                    elif prjScn.time is not None:
                         hours, minutes = prjScn.time.split(':')[:2]
                         try:
                             xmlScene.find('Hour').text = hours
-- 
2.43.0


From a19b6b81d112646dd6613de54b5ddede6ae3dd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:46 +0000
Subject: [PATCH 68/71] fix: list elements once and drop references to removed
 ones when importing lists

---
 src/pywriter/ods_r/ods_r_charlist.py |  3 ++-
 src/pywriter/ods_r/ods_r_itemlist.py |  3 ++-
 src/pywriter/ods_r/ods_r_loclist.py  |  3 ++-
 src/pywriter/yw/yw7_file.py          | 15 +++++++++------
 4 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/pywriter/ods_r/ods_r_charlist.py b/src/pywriter/ods_r/ods_r_charlist.py
index 22a35d2..6d32db8 100644
--- a/src/pywriter/ods_r/ods_r_charlist.py
+++ b/src/pywriter/ods_r/ods_r_charlist.py
@@ -32,7 +32,8 @@ class OdsRCharList(OdsReader):
         for cells in self._rows:
             if 'CrID:' in cells[0]:
                 crId = re.search(r'CrID\:([0-9]+)', cells[0]).group(1)
-                self.novel.srtCharacters.append(crId)
+                if not crId in self.novel.srtCharacters:
+                    self.novel.srtCharacters.append(crId)
                 if not crId in self.novel.characters:
                     self.novel.characters[crId] = Character()
                 if self.novel.characters[crId].title or cells[1]:
diff --git a/src/pywriter/ods_r/ods_r_itemlist.py b/src/pywriter/ods_r/ods_r_itemlist.py
index 19fa282..4a01997 100644
--- a/src/pywriter/ods_r/ods_r_itemlist.py
+++ b/src/pywriter/ods_r/ods_r_itemlist.py
@@ -32,7 +32,8 @@ class OdsRItemList(OdsReader):
         for cells in self._rows:
             if 'ItID:' in cells[0]:
                 itId = re.search(r'ItID\:([0-9]+)', cells[0]).group(1)
-                self.novel.srtItems.append(itId)
+                if not itId in self.novel.srtItems:
+                    self.novel.srtItems.append(itId)
                 if not itId in self.novel.items:
                     self.novel.items[itId] = WorldElement()
                 if self.novel.items[itId].title or cells[1]:
diff --git a/src/pywriter/ods_r/ods_r_loclist.py b/src/pywriter/ods_r/ods_r_loclist.py
index 1854250..8ca8ace 100644
--- a/src/pywriter/ods_r/ods_r_loclist.py
+++ b/src/pywriter/ods_r/ods_r_loclist.py
@@ -32,7 +32,8 @@ class OdsRLocList(OdsReader):
         for cells in self._rows:
             if 'LcID:' in cells[0]:
                 lcId = re.search(r'LcID\:([0-9]+)', cells[0]).group(1)
-                self.novel.srtLocations.append(lcId)
+                if not lcId in self.novel.srtLocations:
+                    self.novel.srtLocations.append(lcId)
                 if not lcId in self.novel.locations:
                     self.novel.locations[lcId] = WorldElement()
                 if self.novel.locations[lcId].title or cells[1]:
diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index b28a6d6..781bd92 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -523,27 +523,30 @@ class Yw7File(File):
                 xmlScene.remove(xmlScene.find('Characters'))
             except:
                 pass
-            if prjScn.characters:
+            characters = [crId for crId in prjScn.characters or [] if crId in self.novel.srtCharacters]
+            if characters:
                 xmlCharacters = ET.SubElement(xmlScene, 'Characters')
-                for crId in prjScn.characters:
+                for crId in characters:
                     ET.SubElement(xmlCharacters, 'CharID').text = crId
 
             try:
                 xmlScene.remove(xmlScene.find('Locations'))
             except:
                 pass
-            if prjScn.locations:
+            locations = [lcId for lcId in prjScn.locations or [] if lcId in self.novel.srtLocations]
+            if locations:
                 xmlLocations = ET.SubElement(xmlScene, 'Locations')
-                for lcId in prjScn.locations:
+                for lcId in locations:
                     ET.SubElement(xmlLocations, 'LocID').text = lcId
 
             try:
                 xmlScene.remove(xmlScene.find('Items'))
             except:
                 pass
-            if prjScn.items:
+            items = [ItId for ItId in prjScn.items or [] if ItId in self.novel.srtItems]
+            if items:
                 xmlItems = ET.SubElement(xmlScene, 'Items')
-                for ItId in prjScn.items:
+                for ItId in items:
                     ET.SubElement(xmlItems, 'ItemID').text = ItId
 
         def build_chapter_subtree(xmlChapter, prjChp):
-- 
2.43.0


From 0e6aa0b995bbbbdf885a401176c77eb14855b636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:46 +0000
Subject: [PATCH 69/71] fix: import the text in and after sections inserted by
 the author

---
 src/pywriter/odt_r/odt_parser.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index db92783..a341139 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -4,6 +4,7 @@ Copyright (c) 2023 Peter Triesberger
 For further information see https://github.com/peter88213/
 Published under the MIT License (https://opensource.org/licenses/mit-license.php)
 """
+import re
 import zipfile
 from xml import sax
 import xml.etree.ElementTree as ET
@@ -36,6 +37,7 @@ class OdtParser(sax.ContentHandler):
         self._blockquote = False
         self._list = False
         self._span = []
+        self._sections = []
         self._style = None
         self._deleted = False
         self._client = client
@@ -152,7 +154,8 @@ class OdtParser(sax.ContentHandler):
             if self._span and self._commentParagraphCount is None:
                 self._close_span()
         elif name == 'text:section':
-            self._client.handle_endtag('div')
+            if self._sections.pop():
+                self._client.handle_endtag('div')
         elif name == 'office:annotation':
             self._client.handle_comment(self._comment)
             self._commentParagraphCount = None
@@ -211,7 +214,11 @@ class OdtParser(sax.ContentHandler):
                     self._client.handle_starttag('lang', [('lang', self._languageTags[style])])
         elif name == 'text:section':
             sectionId = xmlAttributes['text:name']
-            self._client.handle_starttag('div', [('id', sectionId)])
+            isTagged = re.match('[A-Z][a-z]ID', sectionId) is not None
+            self._sections.append(isTagged)
+            # Sections the author has inserted are part of the text.
+            if isTagged:
+                self._client.handle_starttag('div', [('id', sectionId)])
         elif name == 'office:annotation':
             self._commentParagraphCount = 0
             self._comment = ''
-- 
2.43.0


From 682a20f2e161da2cc82d2715adf60f3d6520c77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:46 +0000
Subject: [PATCH 70/71] fix: import footnotes and endnotes as comments without
 losing the text after them

---
 src/pywriter/odt_r/odt_parser.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index a341139..2bf6c45 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -34,6 +34,8 @@ class OdtParser(sax.ContentHandler):
         self._heading = None
         self._paragraph = False
         self._commentParagraphCount = None
+        self._comment = ''
+        self._outerComments = []
         self._blockquote = False
         self._list = False
         self._span = []
@@ -156,9 +158,9 @@ class OdtParser(sax.ContentHandler):
         elif name == 'text:section':
             if self._sections.pop():
                 self._client.handle_endtag('div')
-        elif name == 'office:annotation':
+        elif name in ('office:annotation', 'text:note'):
             self._client.handle_comment(self._comment)
-            self._commentParagraphCount = None
+            self._commentParagraphCount, self._comment = self._outerComments.pop()
         elif name == 'text:h':
             self._client.handle_endtag(self._heading)
             self._heading = None
@@ -219,9 +221,15 @@ class OdtParser(sax.ContentHandler):
             # Sections the author has inserted are part of the text.
             if isTagged:
                 self._client.handle_starttag('div', [('id', sectionId)])
-        elif name == 'office:annotation':
+        elif name in ('office:annotation', 'text:note'):
+            self._outerComments.append((self._commentParagraphCount, self._comment))
             self._commentParagraphCount = 0
-            self._comment = ''
+            if name == 'office:annotation':
+                self._comment = ''
+            elif xmlAttributes.get('text:note-class', None) == 'endnote':
+                self._comment = '@en '
+            else:
+                self._comment = '@fn '
         elif name == 'text:h':
             try:
                 self._heading = f'h{xmlAttributes["text:outline-level"]}'
-- 
2.43.0


From 2283776d735aa67deab2dff70d60ebfdbd355a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:46 +0000
Subject: [PATCH 71/71] fix: import the text after a text frame within a
 paragraph

---
 src/pywriter/odt_r/odt_parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 2bf6c45..907a2ac 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -39,6 +39,7 @@ class OdtParser(sax.ContentHandler):
         self._blockquote = False
         self._list = False
         self._span = []
+        self._outerParagraphs = []
         self._sections = []
         self._style = None
         self._deleted = False
@@ -151,7 +152,7 @@ class OdtParser(sax.ContentHandler):
                     self._heading = None
                 else:
                     self._client.handle_endtag('p')
-                self._paragraph = False
+                self._paragraph, self._blockquote, self._heading, self._span = self._outerParagraphs.pop()
         elif name == 'text:span':
             if self._span and self._commentParagraphCount is None:
                 self._close_span()
@@ -188,6 +189,10 @@ class OdtParser(sax.ContentHandler):
             param = [()]
             if style in self._languageTags:
                 param = [('lang', self._languageTags[style])]
+            if self._commentParagraphCount is None:
+                # There may be a frame with text inside of a paragraph.
+                self._outerParagraphs.append((self._paragraph, self._blockquote, self._heading, self._span))
+                self._paragraph, self._blockquote, self._heading, self._span = False, False, None, []
             if self._commentParagraphCount is not None:
                 self._commentParagraphCount += 1
             elif style in self._blockquoteTags:
-- 
2.43.0

