From 574bbf0868b9fd092868626ab3a55e6385dfb72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 01/59] fix: keep vertical bars when reading a yWriter project

The pattern that strips control characters contained '|' inside the
character class, so every '|' of the project was deleted on reading.
---
 src/pywriter/yw/yw7_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 1de5d10..c82b3e8 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -152,7 +152,7 @@ class Yw7File(File):
             except Exception as ex:
                 raise Error(f'{_("Can not process file")} - {str(ex)}')
 
-        xmlText = re.sub('[\x00-\x08|\x0b-\x0c|\x0e-\x1f]', '', xmlText)
+        xmlText = re.sub('[\x00-\x08\x0b-\x0c\x0e-\x1f]', '', xmlText)
         root = ET.fromstring(xmlText)
         xmlText = None
         # saving memory
-- 
2.43.0


From 4514c88b71f7dc5b5ec3b9cf1656e43ca5d71a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 02/59] fix: write scene items with the tag that yWriter and
 the reader use

Items assigned to scenes were written as <ItmID>, but are read as <ItemID>,
so every save lost all the item assignments.
---
 src/pywriter/yw/yw7_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index c82b3e8..313d237 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -529,7 +529,7 @@ class Yw7File(File):
             if prjScn.items:
                 xmlItems = ET.SubElement(xmlScene, 'Items')
                 for ItId in prjScn.items:
-                    ET.SubElement(xmlItems, 'ItmID').text = ItId
+                    ET.SubElement(xmlItems, 'ItemID').text = ItId
 
         def build_chapter_subtree(xmlChapter, prjChp):
             # This is how yWriter 7.1.3.0 writes the chapter type:
-- 
2.43.0


From e0aef8917d027d9f106f2dbaf1f8db3860971521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 03/59] fix: keep the project's text when saving a yWriter
 project

- Text outside CDATA sections was unescaped, so that '&' or '<' in user
  fields, conflicts, or unknown elements made the project unreadable.
- Custom fields were escaped twice and accumulated '&amp;' on each save.
- ']]>' in a text ended the CDATA section prematurely.
- Line breaks adjacent to ']]' or to a leading blank were dropped, so that
  each save took away a trailing line break. The outline import, which
  relied on it, now removes the line break itself.
---
 src/pywriter/odt_r/odt_r_outline.py |  4 ++--
 src/pywriter/yw/yw7_file.py         | 33 +++++++++++++----------------
 2 files changed, 17 insertions(+), 20 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_outline.py b/src/pywriter/odt_r/odt_r_outline.py
index 1ef2e6f..c41f90b 100644
--- a/src/pywriter/odt_r/odt_r_outline.py
+++ b/src/pywriter/odt_r/odt_r_outline.py
@@ -68,9 +68,9 @@ class OdtROutline(OdtReader):
             text = f'{text.strip()}\n'
             self._lines = [text]
             if self._scId is not None:
-                self.novel.scenes[self._scId].desc = text
+                self.novel.scenes[self._scId].desc = text.strip()
             elif self._chId is not None:
-                self.novel.chapters[self._chId].desc = text
+                self.novel.chapters[self._chId].desc = text.strip()
         elif tag in ('h1', 'h2'):
             self.novel.chapters[self._chId].title = text.strip()
             self._lines = []
diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 313d237..5791693 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -321,7 +321,7 @@ class Yw7File(File):
                 if prjScn.kwVar.get(field, None):
                     if xmlSceneFields is None:
                         xmlSceneFields = ET.SubElement(xmlScene, 'Fields')
-                    fieldEntry = self._convert_from_yw(prjScn.kwVar[field])
+                    fieldEntry = prjScn.kwVar[field]
                     try:
                         xmlSceneFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -614,7 +614,7 @@ class Yw7File(File):
                     if xmlChapterFields is None:
                         xmlChapterFields = ET.Element('Fields')
                         xmlChapter.insert(i, xmlChapterFields)
-                    fieldEntry = self._convert_from_yw(prjChp.kwVar[field])
+                    fieldEntry = prjChp.kwVar[field]
                     try:
                         xmlChapterFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -673,7 +673,7 @@ class Yw7File(File):
                 if prjLoc.kwVar.get(field, None):
                     if xmlLocationFields is None:
                         xmlLocationFields = ET.SubElement(xmlLoc, 'Fields')
-                    fieldEntry = self._convert_from_yw(prjLoc.kwVar[field])
+                    fieldEntry = prjLoc.kwVar[field]
                     try:
                         xmlLocationFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -729,7 +729,7 @@ class Yw7File(File):
                 if prjItm.kwVar.get(field, None):
                     if xmlItemFields is None:
                         xmlItemFields = ET.SubElement(xmlItm, 'Fields')
-                    fieldEntry = self._convert_from_yw(prjItm.kwVar[field])
+                    fieldEntry = prjItm.kwVar[field]
                     try:
                         xmlItemFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -781,7 +781,7 @@ class Yw7File(File):
                 if prjCrt.kwVar.get(field, None):
                     if xmlCharacterFields is None:
                         xmlCharacterFields = ET.SubElement(xmlCrt, 'Fields')
-                    fieldEntry = self._convert_from_yw(prjCrt.kwVar[field])
+                    fieldEntry = prjCrt.kwVar[field]
                     try:
                         xmlCharacterFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -876,7 +876,7 @@ class Yw7File(File):
                 if setting:
                     if xmlProjectFields is None:
                         xmlProjectFields = ET.SubElement(xmlProject, 'Fields')
-                    fieldEntry = self._convert_from_yw(setting)
+                    fieldEntry = setting
                     try:
                         xmlProjectFields.find(field).text = fieldEntry
                     except(AttributeError):
@@ -1125,7 +1125,7 @@ class Yw7File(File):
             filePath: str -- path to xml file.
         
         Read the xml file, put a header on top, insert the missing CDATA tags,
-        and replace xml entities by plain text (unescape). Overwrite the .yw7 xml file.
+        and replace their xml entities by plain text (unescape). Overwrite the .yw7 xml file.
         Raise the "Error" exception in case of error. 
         
         Note: The path is given as an argument rather than using self.filePath. 
@@ -1133,20 +1133,17 @@ class Yw7File(File):
         """
         with open(filePath, 'r', encoding='utf-8') as f:
             text = f.read()
-        lines = text.split('\n')
-        newlines = ['<?xml version="1.0" encoding="utf-8"?>']
-        for line in lines:
-            for tag in self._CDATA_TAGS:
-                line = re.sub(fr'\<{tag}\>', f'<{tag}><![CDATA[', line)
-                line = re.sub(fr'\<\/{tag}\>', f']]></{tag}>', line)
-            newlines.append(line)
-        text = '\n'.join(newlines)
-        text = text.replace('[CDATA[ \n', '[CDATA[')
-        text = text.replace('\n]]', ']]')
+
+        def set_cdata(match):
+            # Turn the escaped text of an element into a CDATA section.
+            content = unescape(match.group(2)).replace(']]>', ']]]]><![CDATA[>')
+            return f'<{match.group(1)}><![CDATA[{content}]]></{match.group(1)}>'
+
+        text = re.sub(fr'<({"|".join(self._CDATA_TAGS)})>([^<]*)</\1>', set_cdata, text)
+        text = f'<?xml version="1.0" encoding="utf-8"?>\n{text}'
         if not self.novel.chapters:
             text = text.replace('<CHAPTERS />', '<CHAPTERS></CHAPTERS>')
             # otherwise, yWriter fails to parse the file if there are no chapters.
-        text = unescape(text)
         try:
             with open(filePath, 'w', encoding='utf-8') as f:
                 f.write(text)
-- 
2.43.0


From b35f93af77742f372319b2888d22c5266045c584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 04/59] fix: report unreadable yWriter projects properly

Malformed XML raised a parser exception instead of the documented Error,
and the fallback for other encodings ended with an UnboundLocalError.
---
 src/pywriter/yw/yw7_file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 5791693..11ec27e 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -146,14 +146,14 @@ class Yw7File(File):
                 # yw7 file may be UTF-16 encoded, with a wrong XML header (yWriter for iOS)
                 with open(self.filePath, 'r', encoding='utf-16') as f:
                     xmlText = f.read()
+            xmlText = re.sub('[\x00-\x08\x0b-\x0c\x0e-\x1f]', '', xmlText)
+            root = ET.fromstring(xmlText)
         except:
             try:
-                self.tree = ET.parse(self.filePath)
+                root = ET.parse(self.filePath).getroot()
             except Exception as ex:
                 raise Error(f'{_("Can not process file")} - {str(ex)}')
 
-        xmlText = re.sub('[\x00-\x08\x0b-\x0c\x0e-\x1f]', '', xmlText)
-        root = ET.fromstring(xmlText)
         xmlText = None
         # saving memory
         self.tree = ET.ElementTree(root)
-- 
2.43.0


From e42c10ff4d40510d40840baf4a364bd271b16b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 05/59] fix: accept project variables without a title

An empty project variable title stopped reading the document language, and
made it impossible to save the project.
---
 src/pywriter/yw/yw7_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 11ec27e..888c739 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -993,7 +993,7 @@ class Yw7File(File):
             hasCountryCode = False
             for xmlProjectvar in xmlProjectvars.findall('PROJECTVAR'):
                 prjVars.append(xmlProjectvar.find('ID').text)
-                title = xmlProjectvar.find('Title').text
+                title = xmlProjectvar.find('Title').text or ''
 
                 # Collect language codes.
                 if title.startswith('lang='):
@@ -1368,7 +1368,7 @@ class Yw7File(File):
         try:
             for xmlProjectvar in root.find('PROJECTVARS'):
                 if xmlProjectvar.find('Title') is not None:
-                    title = xmlProjectvar.find('Title').text
+                    title = xmlProjectvar.find('Title').text or ''
                     if title == 'Language':
                         if xmlProjectvar.find('Desc') is not None:
                             self.novel.languageCode = xmlProjectvar.find('Desc').text
-- 
2.43.0


From f2731f85c925a7f8b1b274c5296a4009688bb3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 06/59] fix: accept empty day, hour, and minute elements

A scene with an empty element made the whole project unreadable.
---
 src/pywriter/yw/yw7_file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 888c739..001239d 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1498,18 +1498,18 @@ class Yw7File(File):
                     # Check if Day represents an integer.
                     try:
                         int(day)
-                    except ValueError:
+                    except (TypeError, ValueError):
                         day = ''
                     self.novel.scenes[scId].day = day
 
                 hasUnspecificTime = False
                 if xmlScene.find('Hour') is not None:
-                    hour = xmlScene.find('Hour').text.zfill(2)
+                    hour = (xmlScene.find('Hour').text or '').zfill(2)
                     hasUnspecificTime = True
                 else:
                     hour = '00'
                 if xmlScene.find('Minute') is not None:
-                    minute = xmlScene.find('Minute').text.zfill(2)
+                    minute = (xmlScene.find('Minute').text or '').zfill(2)
                     hasUnspecificTime = True
                 else:
                     minute = '00'
-- 
2.43.0


From 9f9deb51208dc34e8d2813cafdf36597d8b2ac02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 07/59] fix: save scenes with a day whose time was cleared

An empty time with a given day raised a ValueError on saving.
---
 src/pywriter/yw/yw7_file.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 001239d..fd733dd 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -429,7 +429,11 @@ class Yw7File(File):
                             xmlScene.find('Day').text = prjScn.day
                         except(AttributeError):
                             ET.SubElement(xmlScene, 'Day').text = prjScn.day
-                    if prjScn.time is not None:
+                    if prjScn.time == '':
+                        for tag in ('Hour', 'Minute'):
+                            if xmlScene.find(tag) is not None:
+                                xmlScene.remove(xmlScene.find(tag))
+                    elif prjScn.time is not None:
                         hours, minutes, __ = prjScn.time.split(':')
                         try:
                             xmlScene.find('Hour').text = hours
-- 
2.43.0


From f8905787682647aaf758c0295af5f4ce964bc902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:54 +0000
Subject: [PATCH 08/59] fix: strip the document suffix only from the end of the
 path

If the project name or a directory contained the suffix as well, the wrong
project was looked up on import (my_notes_notes.odt updated my.yw7), and
links in documents led to the wrong file.
---
 src/pywriter/converter/import_target_factory.py | 7 +++----
 src/pywriter/file/file.py                       | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pywriter/converter/import_target_factory.py b/src/pywriter/converter/import_target_factory.py
index 55e7c35..4f3447b 100644
--- a/src/pywriter/converter/import_target_factory.py
+++ b/src/pywriter/converter/import_target_factory.py
@@ -37,10 +37,9 @@ class ImportTargetFactory(FileFactory):
             # Remove the suffix from the source file name.
             # This should also work if the file name already contains the suffix,
             # e.g. "test_notes_notes.odt".
-            e = fileName.split(sourceSuffix)
-            if len(e) > 1:
-                e.pop()
-            ywPathBasis = ''.join(e)
+            ywPathBasis = fileName
+            if fileName.endswith(sourceSuffix):
+                ywPathBasis = fileName[:-len(sourceSuffix)]
         else:
             ywPathBasis = fileName
 
diff --git a/src/pywriter/file/file.py b/src/pywriter/file/file.py
index 31d763c..24494b8 100644
--- a/src/pywriter/file/file.py
+++ b/src/pywriter/file/file.py
@@ -102,7 +102,7 @@ class File(ABC):
             except:
                 head, tail = os.path.split(filePath)
             self.projectPath = quote(head.replace('\\', '/'), '/:')
-            self.projectName = quote(tail.replace(f'{suffix}{self.EXTENSION}', ''))
+            self.projectName = quote(tail[:-len(f'{suffix}{self.EXTENSION}')])
 
     def read(self):
         """Parse the file and get the instance variables.
-- 
2.43.0


From 894197fc2cbf772745d891bc60de26da90b0cfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 09/59] fix: keep bracketed vertical bars when exporting
 formatted text

---
 src/pywriter/odt_w/odt_w_formatted.py | 2 +-
 src/pywriter/odt_w/odt_w_proof.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index eed9e54..2d300ca 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -103,7 +103,7 @@ class OdtWFormatted(OdtWriter):
 
             # Remove highlighting, alignment,
             # strikethrough, and underline tags.
-            text = re.sub(r'\[\/*[h|c|r|s|u]\d*\]', '', text)
+            text = re.sub(r'\[\/*[hcrsu]\d*\]', '', text)
         else:
             text = ''
         return text
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index 9e95351..d135a8f 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -110,7 +110,7 @@ class OdtWProof(OdtWFormatted):
 
             # Remove highlighting, alignment,
             # strikethrough, and underline tags.
-            text = re.sub(r'\[\/*[h|c|r|s|u]\d*\]', '', text)
+            text = re.sub(r'\[\/*[hcrsu]\d*\]', '', text)
         else:
             text = ''
         return text
-- 
2.43.0


From b6d99f00b10dd0b885fade8bceb850d835d130aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 10/59] fix: escape title, author, and summary in the document
 metadata

---
 src/pywriter/odf/odf_file.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/odf/odf_file.py b/src/pywriter/odf/odf_file.py
index 85d1186..7657d37 100644
--- a/src/pywriter/odf/odf_file.py
+++ b/src/pywriter/odf/odf_file.py
@@ -12,6 +12,7 @@ import tempfile
 from shutil import rmtree
 from datetime import datetime
 from string import Template
+from xml.sax.saxutils import escape
 from pywriter.pywriter_globals import *
 from pywriter.file.file_export import FileExport
 
@@ -147,9 +148,9 @@ class OdfFile(FileExport):
 
         #--- Generate meta.xml with actual document metadata.
         metaMapping = dict(
-            Author=self.novel.authorName,
-            Title=self.novel.title,
-            Summary=f'<![CDATA[{self.novel.desc}]]>',
+            Author=escape(self.novel.authorName or ''),
+            Title=escape(self.novel.title or ''),
+            Summary=escape(self.novel.desc or ''),
             Datetime=datetime.today().replace(microsecond=0).isoformat(),
         )
         template = Template(self._META_XML)
-- 
2.43.0


From 492f28cfb49a6fe159351e1fa5620c27bc99b485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 11/59] fix: escape all names and field values in exported
 documents

---
 src/pywriter/file/file_export.py       | 24 ++++++++++++------------
 src/pywriter/odt_w/odt_w_characters.py |  4 ++--
 src/pywriter/odt_w/odt_w_items.py      |  2 +-
 src/pywriter/odt_w/odt_w_locations.py  |  2 +-
 src/pywriter/odt_w/odt_w_xref.py       |  2 +-
 5 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/pywriter/file/file_export.py b/src/pywriter/file/file_export.py
index 9e5aded..0f53120 100644
--- a/src/pywriter/file/file_export.py
+++ b/src/pywriter/file/file_export.py
@@ -270,7 +270,7 @@ class FileExport(File):
             Title=self._convert_from_yw(self.novel.characters[crId].title, True),
             Desc=self._convert_from_yw(self.novel.characters[crId].desc),
             Tags=self._convert_from_yw(tags),
-            Image=self.novel.characters[crId].image,
+            Image=self._convert_from_yw(self.novel.characters[crId].image, True),
             AKA=self._convert_from_yw(self.novel.characters[crId].aka, True),
             Notes=self._convert_from_yw(self.novel.characters[crId].notes),
             Bio=self._convert_from_yw(self.novel.characters[crId].bio),
@@ -333,7 +333,7 @@ class FileExport(File):
             Title=self._convert_from_yw(self.novel.items[itId].title, True),
             Desc=self._convert_from_yw(self.novel.items[itId].desc),
             Tags=self._convert_from_yw(tags, True),
-            Image=self.novel.items[itId].image,
+            Image=self._convert_from_yw(self.novel.items[itId].image, True),
             AKA=self._convert_from_yw(self.novel.items[itId].aka, True),
             ProjectName=self._convert_from_yw(self.projectName, True),
             ProjectPath=self.projectPath,
@@ -377,7 +377,7 @@ class FileExport(File):
             Title=self._convert_from_yw(self.novel.locations[lcId].title, True),
             Desc=self._convert_from_yw(self.novel.locations[lcId].desc),
             Tags=self._convert_from_yw(tags, True),
-            Image=self.novel.locations[lcId].image,
+            Image=self._convert_from_yw(self.novel.locations[lcId].image, True),
             AKA=self._convert_from_yw(self.novel.locations[lcId].aka, True),
             ProjectName=self._convert_from_yw(self.projectName, True),
             ProjectPath=self.projectPath,
@@ -517,10 +517,10 @@ class FileExport(File):
             FieldTitle2=self._convert_from_yw(self.novel.fieldTitle2, True),
             FieldTitle3=self._convert_from_yw(self.novel.fieldTitle3, True),
             FieldTitle4=self._convert_from_yw(self.novel.fieldTitle4, True),
-            Field1=self.novel.scenes[scId].field1,
-            Field2=self.novel.scenes[scId].field2,
-            Field3=self.novel.scenes[scId].field3,
-            Field4=self.novel.scenes[scId].field4,
+            Field1=self._convert_from_yw(self.novel.scenes[scId].field1, True),
+            Field2=self._convert_from_yw(self.novel.scenes[scId].field2, True),
+            Field3=self._convert_from_yw(self.novel.scenes[scId].field3, True),
+            Field4=self._convert_from_yw(self.novel.scenes[scId].field4, True),
             Date=scDate,
             Time=scTime,
             Day=scDay,
@@ -534,11 +534,11 @@ class FileExport(File):
             Conflict=self._convert_from_yw(self.novel.scenes[scId].conflict),
             Outcome=self._convert_from_yw(self.novel.scenes[scId].outcome),
             Tags=self._convert_from_yw(tags, True),
-            Image=self.novel.scenes[scId].image,
-            Characters=sceneChars,
-            Viewpoint=viewpointChar,
-            Locations=sceneLocs,
-            Items=sceneItems,
+            Image=self._convert_from_yw(self.novel.scenes[scId].image, True),
+            Characters=self._convert_from_yw(sceneChars, True),
+            Viewpoint=self._convert_from_yw(viewpointChar, True),
+            Locations=self._convert_from_yw(sceneLocs, True),
+            Items=self._convert_from_yw(sceneItems, True),
             Notes=self._convert_from_yw(self.novel.scenes[scId].notes),
             ProjectName=self._convert_from_yw(self.projectName, True),
             ProjectPath=self.projectPath,
diff --git a/src/pywriter/odt_w/odt_w_characters.py b/src/pywriter/odt_w/odt_w_characters.py
index 82209c0..d609448 100644
--- a/src/pywriter/odt_w/odt_w_characters.py
+++ b/src/pywriter/odt_w/odt_w_characters.py
@@ -54,7 +54,7 @@ class OdtWCharacters(OdtWriter):
         """
         characterMapping = OdtWriter._get_characterMapping(self, crId)
         if self.novel.characters[crId].aka:
-            characterMapping['AKA'] = f' ("{self.novel.characters[crId].aka}")'
+            characterMapping['AKA'] = f' ("{characterMapping["AKA"]}")'
         if self.novel.characters[crId].fullName:
-            characterMapping['FullName'] = f'/{self.novel.characters[crId].fullName}'
+            characterMapping['FullName'] = f'/{characterMapping["FullName"]}'
         return characterMapping
diff --git a/src/pywriter/odt_w/odt_w_items.py b/src/pywriter/odt_w/odt_w_items.py
index a05d86b..d6c5b29 100644
--- a/src/pywriter/odt_w/odt_w_items.py
+++ b/src/pywriter/odt_w/odt_w_items.py
@@ -39,5 +39,5 @@ class OdtWItems(OdtWriter):
         """
         itemMapping = super()._get_itemMapping(itId)
         if self.novel.items[itId].aka:
-            itemMapping['AKA'] = f' ("{self.novel.items[itId].aka}")'
+            itemMapping['AKA'] = f' ("{itemMapping["AKA"]}")'
         return itemMapping
diff --git a/src/pywriter/odt_w/odt_w_locations.py b/src/pywriter/odt_w/odt_w_locations.py
index 33c8b19..a0f9da5 100644
--- a/src/pywriter/odt_w/odt_w_locations.py
+++ b/src/pywriter/odt_w/odt_w_locations.py
@@ -39,5 +39,5 @@ class OdtWLocations(OdtWriter):
         """
         locationMapping = super()._get_locationMapping(lcId)
         if self.novel.locations[lcId].aka:
-            locationMapping['AKA'] = f' ("{self.novel.locations[lcId].aka}")'
+            locationMapping['AKA'] = f' ("{locationMapping["AKA"]}")'
         return locationMapping
diff --git a/src/pywriter/odt_w/odt_w_xref.py b/src/pywriter/odt_w/odt_w_xref.py
index 5a7bf14..b73c613 100644
--- a/src/pywriter/odt_w/odt_w_xref.py
+++ b/src/pywriter/odt_w/odt_w_xref.py
@@ -213,7 +213,7 @@ $SceneNumber (Ch $Chapter) $Title (ToDo)
             tag: str -- a single scene tag.
         """
         tagMapping = dict(
-            Tag=tag,
+            Tag=self._convert_from_yw(tag, True),
         )
         return tagMapping
 
-- 
2.43.0


From a09e79d88249357c6b98960ac2a82d2f0408023a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 12/59] fix: export overlapping, unbalanced, and multi-line
 markup as well-formed text

---
 src/pywriter/odt_w/odt_w_export.py    | 14 ++--
 src/pywriter/odt_w/odt_w_formatted.py | 98 +++++++++++++++++++--------
 src/pywriter/odt_w/odt_w_proof.py     | 33 ++-------
 3 files changed, 80 insertions(+), 65 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_export.py b/src/pywriter/odt_w/odt_w_export.py
index 80efacd..39d43b1 100644
--- a/src/pywriter/odt_w/odt_w_export.py
+++ b/src/pywriter/odt_w/odt_w_export.py
@@ -5,6 +5,7 @@ For further information see https://github.com/peter88213/PyWriter
 Published under the MIT License (https://opensource.org/licenses/mit-license.php)
 """
 import re
+from xml.sax.saxutils import escape
 from pywriter.pywriter_globals import *
 from pywriter.odt_w.odt_w_formatted import OdtWFormatted
 
@@ -104,15 +105,12 @@ class OdtWExport(OdtWFormatted):
 
         #--- Convert comments, footnotes, and endnotes.
         # This is done once for the entire document because of the document-wide note numbering.
-        if text.find('/*') > 0:
-            text = text.replace('\r', '@r@').replace('\n', '@n@')
+        if self._COMMENT_START in text:
             self._noteCounter = 0
             self._noteNumber = 0
-            simpleComment = (f'<office:annotation><dc:creator>{self.novel.authorName}'
-                             '</dc:creator><text:p>\\1</text:p></office:annotation>'
-                             )
-            text = re.sub(r'\/\* *@([ef]n\**) (.*?)\*\/', replace_note, text)
-            text = re.sub(r'\/\*(.*?)\*\/', simpleComment, text)
-            text = text.replace(r'@r@', '\r').replace('@n@', '\n')
+            commentStart = f'<office:annotation><dc:creator>{escape(self.novel.authorName or "")}</dc:creator><text:p>'
+            text = re.sub(fr'{self._COMMENT_START} *@([ef]n\**) (.*?){self._COMMENT_END}', replace_note, text, flags=re.DOTALL)
+            text = text.replace(self._COMMENT_START, commentStart)
+            text = text.replace(self._COMMENT_END, '</text:p></office:annotation>')
         return text
 
diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index 2d300ca..2121fbe 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -6,6 +6,7 @@ Published under the MIT License (https://opensource.org/licenses/mit-license.php
 """
 import re
 from string import Template
+from xml.sax.saxutils import escape
 from pywriter.pywriter_globals import *
 from pywriter.odt_w.odt_writer import OdtWriter
 
@@ -33,6 +34,10 @@ class OdtWFormatted(OdtWriter):
 
 '''
 
+    # Placeholders for comment delimiters; these characters cannot occur in the text.
+    _COMMENT_START = '\x02'
+    _COMMENT_END = '\x03'
+
     def write(self):
         """Determine the languages used in the document before writing.
         
@@ -70,32 +75,8 @@ class OdtWFormatted(OdtWriter):
                     odtReplacements.append((f'[lang={language}]', f'<text:span text:style-name="T{i}">'))
                     odtReplacements.append((f'[/lang={language}]', '</text:span>'))
 
-                #--- Process markup reaching across linebreaks.
-                newlines = []
-                lines = text.split('\n')
-                isOpen = {}
-                opening = {}
-                closing = {}
-                for tag in tags:
-                    isOpen[tag] = False
-                    opening[tag] = f'[{tag}]'
-                    closing[tag] = f'[/{tag}]'
-                for line in lines:
-                    for tag in tags:
-                        if isOpen[tag]:
-                            if line.startswith('&gt; '):
-                                line = f"&gt; {opening[tag]}{line.lstrip('&gt; ')}"
-                            else:
-                                line = f'{opening[tag]}{line}'
-                            isOpen[tag] = False
-                        while line.count(opening[tag]) > line.count(closing[tag]):
-                            line = f'{line}{closing[tag]}'
-                            isOpen[tag] = True
-                        while line.count(closing[tag]) > line.count(opening[tag]):
-                            line = f'{opening[tag]}{line}'
-                        line = line.replace(f'{opening[tag]}{closing[tag]}', '')
-                    newlines.append(line)
-                text = '\n'.join(newlines).rstrip()
+                #--- Process overlapping markup, and markup reaching across linebreaks.
+                text = self._nest_markup(text, tags).rstrip()
 
             #--- Apply odt formating.
             for yw, od in odtReplacements:
@@ -148,10 +129,69 @@ class OdtWFormatted(OdtWriter):
                 ('[/i]', '</text:span>'),
                 ('[b]', '<text:span text:style-name="Strong_20_Emphasis">'),
                 ('[/b]', '</text:span>'),
-                ('/*', f'<office:annotation><dc:creator>{self.novel.authorName}</dc:creator><text:p>'),
-                ('*/', '</text:p></office:annotation>'),
+                (self._COMMENT_START, f'<office:annotation><dc:creator>{escape(self.novel.authorName or "")}</dc:creator><text:p>'),
+                (self._COMMENT_END, '</text:p></office:annotation>'),
                 ]
 
+    def _nest_markup(self, text, tags):
+        """Return text with markup tags that can be converted into xml elements.
+        
+        Positional arguments:
+            text -- string to process.
+            tags -- list of strings: names of the markup tags.
+        
+        - Make sure that the tags are balanced and properly nested within each line and each comment.
+        - Replace the delimiters of complete comments by placeholders.
+        """
+
+        def close_down_to(level):
+            # Close the open elements above the given nesting level.
+            for tag in reversed(written[level:]):
+                newText.append(f'[/{tag}]')
+            del written[level:]
+
+        def reopen():
+            # Open the elements of all active tags.
+            newText.extend(f'[{tag}]' for tag in active[len(written):])
+            written[:] = active
+
+        newText = []
+        active, written, outer = [], [], None
+        names = '|'.join(re.escape(tag) for tag in tags)
+        tokens = re.split(fr'(\[/?(?:{names})\]|/\*|\*/|\n)', text)
+        for i, token in enumerate(tokens):
+            if i % 2 == 0:
+                if token:
+                    if token.startswith('> ') and (i == 0 or tokens[i - 1] == '\n'):
+                        newText.append('> ')
+                        token = token[2:]
+                    reopen()
+                    newText.append(token)
+            elif token == '\n':
+                close_down_to(0)
+                newText.append(token)
+            elif token == '/*' and outer is None and '*/' in tokens[i:]:
+                reopen()
+                newText.append(self._COMMENT_START)
+                outer = active, written
+                active, written = [], []
+            elif token == '*/' and outer is not None:
+                close_down_to(0)
+                newText.append(self._COMMENT_END)
+                active, written = outer
+                outer = None
+            elif token in ('/*', '*/'):
+                reopen()
+                newText.append(token)
+            elif not token.startswith('[/'):
+                active.append(token[1:-1])
+            elif token[2:-1] in active:
+                level = len(active) - 1 - active[::-1].index(token[2:-1])
+                close_down_to(level)
+                del active[level]
+        close_down_to(0)
+        return ''.join(newText)
+
     def _get_text(self):
         """Call all processing methods.
         
@@ -171,7 +211,7 @@ class OdtWFormatted(OdtWriter):
                          )
             for quotMark in quotMarks:
                 text = text.replace(quotMark, '"Quotations">')
-            text = re.sub(r'"Text_20_body"\>(\<office\:annotation\>.+?\<\/office\:annotation\>)\&gt\; ',
+            text = re.sub(r'"Text_20_body"\>(\<office\:annotation\>(?:(?!\<\/office\:annotation\>).)+\<\/office\:annotation\>)\&gt\; ',
                           '"Quotations">\\1', text)
         return text
 
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index d135a8f..4e679d0 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -6,6 +6,7 @@ Published under the MIT License (https://opensource.org/licenses/mit-license.php
 """
 import re
 from string import Template
+from xml.sax.saxutils import escape
 from pywriter.pywriter_globals import *
 from pywriter.odt_w.odt_w_formatted import OdtWFormatted
 
@@ -64,8 +65,8 @@ class OdtWProof(OdtWFormatted):
                 ('\r', '\n'),
                 ('[/i]', '</text:span>'),
                 ('[/b]', '</text:span>'),
-                ('/*', f'<office:annotation><dc:creator>{self.novel.authorName}</dc:creator><text:p>'),
-                ('*/', '</text:p></office:annotation>'),
+                (self._COMMENT_START, f'<office:annotation><dc:creator>{escape(self.novel.authorName or "")}</dc:creator><text:p>'),
+                (self._COMMENT_END, '</text:p></office:annotation>'),
             ])
             i = 0
             for i, language in enumerate(self.novel.languages, 1):
@@ -77,32 +78,8 @@ class OdtWProof(OdtWFormatted):
                 ('[b]', f'<text:span text:style-name="T{i+2}">'),
             ])
 
-            #--- Process markup reaching across linebreaks.
-            newlines = []
-            lines = text.split('\n')
-            isOpen = {}
-            opening = {}
-            closing = {}
-            for tag in tags:
-                isOpen[tag] = False
-                opening[tag] = f'[{tag}]'
-                closing[tag] = f'[/{tag}]'
-            for line in lines:
-                for tag in tags:
-                    if isOpen[tag]:
-                        if line.startswith('&gt; '):
-                            line = f"&gt; {opening[tag]}{line.lstrip('&gt; ')}"
-                        else:
-                            line = f'{opening[tag]}{line}'
-                        isOpen[tag] = False
-                    while line.count(opening[tag]) > line.count(closing[tag]):
-                        line = f'{line}{closing[tag]}'
-                        isOpen[tag] = True
-                    while line.count(closing[tag]) > line.count(opening[tag]):
-                        line = f'{opening[tag]}{line}'
-                    line = line.replace(f'{opening[tag]}{closing[tag]}', '')
-                newlines.append(line)
-            text = '\n'.join(newlines).rstrip()
+            #--- Process overlapping markup, and markup reaching across linebreaks.
+            text = self._nest_markup(text, tags).rstrip()
 
             #--- Apply odt formating.
             for yw, od in odtReplacements:
-- 
2.43.0


From 66485b190f322b73a331e4b9272c4f3807a0df51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 13/59] fix: export and split scenes without a status

---
 src/pywriter/file/file_export.py | 2 +-
 src/pywriter/model/splitter.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/file/file_export.py b/src/pywriter/file/file_export.py
index 0f53120..5654273 100644
--- a/src/pywriter/file/file_export.py
+++ b/src/pywriter/file/file_export.py
@@ -511,7 +511,7 @@ class FileExport(File):
             WordsTotal=wordsTotal,
             LetterCount=str(self.novel.scenes[scId].letterCount),
             LettersTotal=lettersTotal,
-            Status=Scene.STATUS[self.novel.scenes[scId].status],
+            Status=Scene.STATUS[self.novel.scenes[scId].status or 0] or '',
             SceneContent=self._convert_from_yw(self.novel.scenes[scId].sceneContent),
             FieldTitle1=self._convert_from_yw(self.novel.fieldTitle1, True),
             FieldTitle2=self._convert_from_yw(self.novel.fieldTitle2, True),
diff --git a/src/pywriter/model/splitter.py b/src/pywriter/model/splitter.py
index 755c319..9a069b0 100644
--- a/src/pywriter/model/splitter.py
+++ b/src/pywriter/model/splitter.py
@@ -97,7 +97,7 @@ class Splitter:
                 parent.outcome = f'{WARNING}{parent.outcome}'
 
             # Reset the parent's status to Draft, if not Outline.
-            if parent.status > 2:
+            if parent.status is not None and parent.status > 2:
                 parent.status = 2
             newScene.status = parent.status
             newScene.scType = parent.scType
-- 
2.43.0


From ad9c9d43bd7bee101bffa685a0648408b33e0ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 14/59] fix: save projects without a language if there is no
 system language

---
 src/pywriter/model/novel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/model/novel.py b/src/pywriter/model/novel.py
index 5753468..b9ee017 100644
--- a/src/pywriter/model/novel.py
+++ b/src/pywriter/model/novel.py
@@ -178,7 +178,11 @@ class Novel(BasicElement):
                 sysLng, sysCtr = locale.getlocale()[0].split('_')
             except:
                 # Fallback for old Windows versions.
-                sysLng, sysCtr = locale.getdefaultlocale()[0].split('_')
+                try:
+                    sysLng, sysCtr = locale.getdefaultlocale()[0].split('_')
+                except:
+                    # There is no system language.
+                    sysLng, sysCtr = 'zxx', 'none'
             self.languageCode = sysLng
             self.countryCode = sysCtr
             return
-- 
2.43.0


From 309624178cad3ef1558c48f06ba8441b8322224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 15/59] fix: register the languages of texts added after
 loading the project

---
 src/pywriter/model/novel.py           |  5 +++--
 src/pywriter/odt_w/odt_w_formatted.py |  3 +--
 src/pywriter/yw/yw7_file.py           | 10 +++++-----
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pywriter/model/novel.py b/src/pywriter/model/novel.py
index b9ee017..9719f92 100644
--- a/src/pywriter/model/novel.py
+++ b/src/pywriter/model/novel.py
@@ -138,7 +138,7 @@ class Novel(BasicElement):
     def get_languages(self):
         """Determine the languages used in the document.
         
-        Populate the self.languages list with all language codes found in the scene contents.        
+        Extend the self.languages list by all language codes found in the scene contents.        
         Example:
         - language markup: 'Standard text [lang=en-AU]Australian text[/lang=en-AU].'
         - language code: 'en-AU'
@@ -158,7 +158,8 @@ class Novel(BasicElement):
                     yield m.group(1)
                     m = LANGUAGE_TAG.search(text)
 
-        self.languages = []
+        if self.languages is None:
+            self.languages = []
         for scId in self.scenes:
             text = self.scenes[scId].sceneContent
             if text:
diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index 2121fbe..9c051c8 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -43,8 +43,7 @@ class OdtWFormatted(OdtWriter):
         
         Extends the superclass method.
         """
-        if self.novel.languages is None:
-            self.novel.get_languages()
+        self.novel.get_languages()
         return super().write()
 
     def _convert_from_yw(self, text, quick=False):
diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index fd733dd..5fb5ae3 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -187,8 +187,7 @@ class Yw7File(File):
         if self.is_locked():
             raise Error(f'{_("yWriter seems to be open. Please close first")}.')
 
-        if self.novel.languages is None:
-            self.novel.get_languages()
+        self.novel.get_languages()
 
         #--- Get custom instance variables.
         for scId in self.novel.scenes:
@@ -1002,7 +1001,7 @@ class Yw7File(File):
                 # Collect language codes.
                 if title.startswith('lang='):
                     try:
-                        __, langCode = title.split('=')
+                        __, langCode = title.split('=', maxsplit=1)
                         languages.remove(langCode)
                     except:
                         pass
@@ -1383,10 +1382,11 @@ class Yw7File(File):
 
                     elif title.startswith('lang='):
                         try:
-                            __, langCode = title.split('=')
+                            __, langCode = title.split('=', maxsplit=1)
                             if self.novel.languages is None:
                                 self.novel.languages = []
-                            self.novel.languages.append(langCode)
+                            if not langCode in self.novel.languages:
+                                self.novel.languages.append(langCode)
                         except:
                             pass
         except:
-- 
2.43.0


From aae995fd0eafd66cd8017f3b231a52870df9ad62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 16/59] fix: export passages in languages without a country

---
 src/pywriter/odt_w/odt_w_formatted.py | 18 +++++++++++++-----
 src/pywriter/odt_w/odt_w_proof.py     |  6 +-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index 9c051c8..30147ea 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -99,11 +99,7 @@ class OdtWFormatted(OdtWriter):
         if self.novel.languages:
             lines = ['<office:automatic-styles>']
             for i, language in enumerate(self.novel.languages, 1):
-                try:
-                    lngCode, ctrCode = language.split('-')
-                except:
-                    lngCode = 'zxx'
-                    ctrCode = 'none'
+                lngCode, ctrCode = self._get_locale(language)
                 lines.append((f'  <style:style style:name="T{i}" style:family="text">\n'
                               f'   <style:text-properties fo:language="{lngCode}" fo:country="{ctrCode}" '
                               f'style:language-asian="{lngCode}" style:country-asian="{ctrCode}" '
@@ -118,6 +114,18 @@ class OdtWFormatted(OdtWriter):
         projectTemplateMapping['ContentHeader'] = template.safe_substitute(styleMapping)
         return projectTemplateMapping
 
+    def _get_locale(self, language):
+        """Return a tuple of language code and country code.
+        
+        Positional arguments:
+            language: str -- language markup, such as "en", or "en-AU".
+        """
+        if re.fullmatch('[A-Za-z]{2,3}(-[A-Za-z0-9]{2,3})?', language):
+            lngCode, __, ctrCode = language.partition('-')
+            return lngCode, ctrCode or 'none'
+
+        return 'zxx', 'none'
+
     def _get_replacements(self):
         return [
                 ('\n\n', ('</text:p>\r<text:p text:style-name="First_20_line_20_indent" />\r'
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index 4e679d0..99a8331 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -103,11 +103,7 @@ class OdtWProof(OdtWFormatted):
         i = 0
         lines = ['<office:automatic-styles>']
         for i, language in enumerate(self.novel.languages, 1):
-            try:
-                lngCode, ctrCode = language.split('-')
-            except:
-                lngCode = 'zxx'
-                ctrCode = 'none'
+            lngCode, ctrCode = self._get_locale(language)
             lines.append(f'''  <style:style style:name="T{i}" style:family="text">
    <style:text-properties fo:language="{lngCode}" fo:country="{ctrCode}" style:language-asian="{lngCode}" style:country-asian="{ctrCode}" style:language-complex="{lngCode}" style:country-complex="{ctrCode}"/>
   </style:style>''')
-- 
2.43.0


From 8218a769f129993ffab2ebc0748ddbf16a83ee89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 17/59] fix: restore the document path if the content cannot be
 generated

---
 src/pywriter/odf/odf_file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odf/odf_file.py b/src/pywriter/odf/odf_file.py
index 7657d37..2778ab9 100644
--- a/src/pywriter/odf/odf_file.py
+++ b/src/pywriter/odf/odf_file.py
@@ -67,8 +67,10 @@ class OdfFile(FileExport):
         #--- Add "content.xml" to the temporary directory.
         self._originalPath = self._filePath
         self._filePath = f'{self._tempDir}/content.xml'
-        self.write_content_xml()
-        self._filePath = self._originalPath
+        try:
+            self.write_content_xml()
+        finally:
+            self._filePath = self._originalPath
 
         #--- Pack the contents of the temporary directory into the ODF file.
         workdir = os.getcwd()
-- 
2.43.0


From 29964ae237b704bfeaec5a434e9c773b457b113e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 18/59] fix: import text with tabs, line breaks, and multiple
 blanks completely

---
 src/pywriter/odt_r/odt_parser.py | 42 +++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index bd4bead..8837fc8 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -23,6 +23,12 @@ class OdtParser(sax.ContentHandler):
       
     """
 
+    _WHITESPACE = {
+        'text:s': ' ',
+        'text:tab': '\t',
+        'text:line-break': '\n',
+        }
+
     def __init__(self, client):
         super().__init__()
         self._emTags = ['Emphasis']
@@ -36,6 +42,7 @@ class OdtParser(sax.ContentHandler):
         self._blockquote = False
         self._list = False
         self._span = []
+        self._text = []
         self._style = None
         self._client = client
 
@@ -105,21 +112,20 @@ class OdtParser(sax.ContentHandler):
     def characters(self, content):
         """Receive notification of character data.
         
+        The parser might split contiguous text into several chunks. So it is collected here.
         Overrides the xml.sax.ContentHandler method             
         """
-        if self._commentParagraphCount is not None:
-            if self._commentParagraphCount == 1:
-                self._comment = f'{self._comment}{content}'
-        elif self._paragraph:
-            self._client.handle_data(content)
-        elif self._heading is not None:
-            self._client.handle_data(content)
+        self._text.append(content)
 
     def endElement(self, name):
         """Signals the end of an element in non-namespace mode.
         
         Overrides the xml.sax.ContentHandler method     
         """
+        if name in self._WHITESPACE:
+            return
+
+        self._process_text()
         if name == 'text:p':
             if self._commentParagraphCount is None:
                 while self._span:
@@ -158,6 +164,11 @@ class OdtParser(sax.ContentHandler):
         for attribute in attrs.items():
             attrKey, attrValue = attribute
             xmlAttributes[attrKey] = attrValue
+        if name in self._WHITESPACE:
+            self._text.append(self._WHITESPACE[name] * int(xmlAttributes.get('text:c', 1)))
+            return
+
+        self._process_text()
         style = xmlAttributes.get('text:style-name', '')
         if name == 'text:p':
             param = [()]
@@ -231,6 +242,19 @@ class OdtParser(sax.ContentHandler):
                 else:
                     locale = lngCode
                 self._languageTags[self._style] = locale
-        elif name == 'text:s':
-            self._client.handle_starttag('s', [()])
+
+    def _process_text(self):
+        """Pass the text collected since the last tag on to the client."""
+        content = ''.join(self._text)
+        self._text = []
+        if not content:
+            return
+
+        if self._commentParagraphCount is not None:
+            if self._commentParagraphCount == 1:
+                self._comment = f'{self._comment}{content}'
+        elif self._paragraph:
+            self._client.handle_data(content)
+        elif self._heading is not None:
+            self._client.handle_data(content)
 
-- 
2.43.0


From ba6035d3c5aac1293f527d6fffda2cb595b36110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 19/59] fix: close exactly the markup of each text span on
 import

---
 src/pywriter/odt_r/odt_parser.py | 63 +++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 18 deletions(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 8837fc8..fa9f1ef 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -29,6 +29,11 @@ class OdtParser(sax.ContentHandler):
         'text:line-break': '\n',
         }
 
+    _COMMENT_TAGS = {
+        'em': 'i',
+        'strong': 'b',
+        }
+
     def __init__(self, client):
         super().__init__()
         self._emTags = ['Emphasis']
@@ -129,7 +134,7 @@ class OdtParser(sax.ContentHandler):
         if name == 'text:p':
             if self._commentParagraphCount is None:
                 while self._span:
-                    self._client.handle_endtag(self._span.pop())
+                    self._end_span()
                 if self._blockquote:
                     self._client.handle_endtag('blockquote')
                     self._blockquote = False
@@ -141,7 +146,7 @@ class OdtParser(sax.ContentHandler):
                 self._paragraph = False
         elif name == 'text:span':
             if self._span:
-                self._client.handle_endtag(self._span.pop())
+                self._end_span()
         elif name == 'text:section':
             self._client.handle_endtag('div')
         elif name == 'office:annotation':
@@ -192,22 +197,10 @@ class OdtParser(sax.ContentHandler):
             else:
                 self._client.handle_starttag('p', param)
                 self._paragraph = True
-            if style in self._emTags:
-                self._span.append('em')
-                self._client.handle_starttag('em', [()])
-            if style in self._strongTags:
-                self._span.append('strong')
-                self._client.handle_starttag('strong', [()])
+            if self._commentParagraphCount is None:
+                self._start_span(style)
         elif name == 'text:span':
-            if style in self._emTags:
-                self._span.append('em')
-                self._client.handle_starttag('em', [()])
-            if style in self._strongTags:
-                self._span.append('strong')
-                self._client.handle_starttag('strong', [()])
-            if style in self._languageTags:
-                self._span.append('lang')
-                self._client.handle_starttag('lang', [('lang', self._languageTags[style])])
+            self._start_span(style, self._languageTags.get(style, None))
         elif name == 'text:section':
             sectionId = xmlAttributes['text:name']
             self._client.handle_starttag('div', [('id', sectionId)])
@@ -236,13 +229,47 @@ class OdtParser(sax.ContentHandler):
                 self._strongTags.append(self._style)
             if xmlAttributes.get('fo:language', False):
                 lngCode = xmlAttributes['fo:language']
-                ctrCode = xmlAttributes['fo:country']
+                ctrCode = xmlAttributes.get('fo:country', 'none')
                 if ctrCode != 'none':
                     locale = f'{lngCode}-{ctrCode}'
                 else:
                     locale = lngCode
                 self._languageTags[self._style] = locale
 
+    def _end_span(self):
+        """Close all tags that belong to the innermost span."""
+        for tag in reversed(self._span.pop()):
+            if self._commentParagraphCount is None:
+                self._client.handle_endtag(tag)
+            else:
+                self._comment = f'{self._comment}[/{self._COMMENT_TAGS[tag]}]'
+
+    def _start_span(self, style, language=None):
+        """Open the tags that belong to a span or paragraph style.
+        
+        Positional arguments:
+            style: str -- style name.
+        
+        Optional arguments:
+            language: str -- language markup.
+        
+        Comments are passed on as a whole, so they get yWriter markup.
+        """
+        tags = []
+        if style in self._emTags:
+            tags.append('em')
+        if style in self._strongTags:
+            tags.append('strong')
+        if self._commentParagraphCount is not None:
+            self._comment += ''.join(f'[{self._COMMENT_TAGS[tag]}]' for tag in tags)
+        else:
+            for tag in tags:
+                self._client.handle_starttag(tag, [()])
+            if language is not None:
+                tags.append('lang')
+                self._client.handle_starttag('lang', [('lang', language)])
+        self._span.append(tags)
+
     def _process_text(self):
         """Pass the text collected since the last tag on to the client."""
         content = ''.join(self._text)
-- 
2.43.0


From e107c1ef3d5ad3c2dcd123a2c05c34a5e39529c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 20/59] fix: import all paragraphs of comments

---
 src/pywriter/odt_r/odt_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index fa9f1ef..d254f5d 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -181,6 +181,8 @@ class OdtParser(sax.ContentHandler):
                 param = [('lang', self._languageTags[style])]
             if self._commentParagraphCount is not None:
                 self._commentParagraphCount += 1
+                if self._commentParagraphCount > 1:
+                    self._comment = f'{self._comment}\n'
             elif style in self._blockquoteTags:
                 self._client.handle_starttag('blockquote', param)
                 self._paragraph = True
@@ -278,7 +280,7 @@ class OdtParser(sax.ContentHandler):
             return
 
         if self._commentParagraphCount is not None:
-            if self._commentParagraphCount == 1:
+            if self._commentParagraphCount > 0:
                 self._comment = f'{self._comment}{content}'
         elif self._paragraph:
             self._client.handle_data(content)
-- 
2.43.0


From 4fb90c985f0803b79c760189f2964c1db359be8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 21/59] fix: import footnotes and endnotes as marked comments

---
 src/pywriter/odt_r/odt_parser.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index d254f5d..0e62a5e 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -29,6 +29,10 @@ class OdtParser(sax.ContentHandler):
         'text:line-break': '\n',
         }
 
+    _NOTE_MARKS = {
+        'footnote': '@fn ',
+        'endnote': '@en ',
+        }
     _COMMENT_TAGS = {
         'em': 'i',
         'strong': 'b',
@@ -44,6 +48,7 @@ class OdtParser(sax.ContentHandler):
         self._heading = None
         self._paragraph = False
         self._commentParagraphCount = None
+        self._commentTag = None
         self._blockquote = False
         self._list = False
         self._span = []
@@ -149,9 +154,10 @@ class OdtParser(sax.ContentHandler):
                 self._end_span()
         elif name == 'text:section':
             self._client.handle_endtag('div')
-        elif name == 'office:annotation':
+        elif name == self._commentTag:
             self._client.handle_comment(self._comment)
             self._commentParagraphCount = None
+            self._commentTag = None
         elif name == 'text:h':
             self._client.handle_endtag(self._heading)
             self._heading = None
@@ -206,9 +212,14 @@ class OdtParser(sax.ContentHandler):
         elif name == 'text:section':
             sectionId = xmlAttributes['text:name']
             self._client.handle_starttag('div', [('id', sectionId)])
-        elif name == 'office:annotation':
-            self._commentParagraphCount = 0
-            self._comment = ''
+        elif name in ('office:annotation', 'text:note'):
+            if self._commentTag is None:
+                self._commentTag = name
+                self._commentParagraphCount = 0
+                self._comment = self._NOTE_MARKS.get(xmlAttributes.get('text:note-class', None), '')
+        elif name == 'text:note-citation':
+            if self._commentTag == 'text:note' and xmlAttributes.get('text:label', None) == '*':
+                self._comment = self._comment.replace(' ', '* ')
         elif name == 'text:h':
             try:
                 self._heading = f'h{xmlAttributes["text:outline-level"]}'
-- 
2.43.0


From 0a4bc9ff9a4cea77ea918b4b53a0f751129388a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:19 +0000
Subject: [PATCH 22/59] fix: close the language tags of imported paragraphs and
 nested spans

---
 src/pywriter/odt_r/odt_r_formatted.py  | 22 +++++++++++++++++
 src/pywriter/odt_r/odt_r_import.py     | 33 +++++---------------------
 src/pywriter/odt_r/odt_r_manuscript.py | 27 ++++-----------------
 src/pywriter/odt_r/odt_r_proof.py      | 27 ++++-----------------
 src/pywriter/odt_r/odt_reader.py       |  3 ++-
 5 files changed, 40 insertions(+), 72 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_formatted.py b/src/pywriter/odt_r/odt_r_formatted.py
index cdb28a4..8472e0c 100644
--- a/src/pywriter/odt_r/odt_r_formatted.py
+++ b/src/pywriter/odt_r/odt_r_formatted.py
@@ -34,6 +34,28 @@ class OdtRFormatted(OdtReader):
         sceneSplitter = Splitter()
         self.scenesSplit = sceneSplitter.split_scenes(self)
 
+    def _start_language(self, attrs):
+        """Add a language tag to the text, if specified by the attributes of a paragraph or span.
+        
+        Positional arguments:
+            attrs -- list of (name, value) pairs containing the attributes.
+        """
+        try:
+            name, language = attrs[0]
+        except:
+            return
+
+        if name == 'lang':
+            self._languages.append(language)
+            if not language in self.novel.languages:
+                self.novel.languages.append(language)
+            self._lines.append(f'[lang={language}]')
+
+    def _end_language(self):
+        """Close the innermost language tag."""
+        if self._languages:
+            self._lines.append(f'[/lang={self._languages.pop()}]')
+
     def _cleanup_scene(self, text):
         """Clean up yWriter markup.
         
diff --git a/src/pywriter/odt_r/odt_r_import.py b/src/pywriter/odt_r/odt_r_import.py
index bd2f7a0..76e4bad 100644
--- a/src/pywriter/odt_r/odt_r_import.py
+++ b/src/pywriter/odt_r/odt_r_import.py
@@ -93,9 +93,8 @@ class OdtRImport(OdtRFormatted):
         Overrides the superclass method.
         """
         if tag in ('p', 'blockquote'):
-            if self._language:
-                self._lines.append(f'[/lang={self._language}]')
-                self._language = ''
+            while self._languages:
+                self._end_language()
             self._lines.append('\n')
             if self._scId is not None:
                 sceneText = ''.join(self._lines).rstrip()
@@ -112,9 +111,7 @@ class OdtRImport(OdtRFormatted):
         elif tag == 'strong' and not self._heading:
             self._lines.append('[/b]')
         elif tag == 'lang' and not self._heading:
-            if self._language:
-                self._lines.append(f'[/lang={self._language}]')
-                self._language = ''
+            self._end_language()
         elif tag in ('h1', 'h2'):
             self.novel.chapters[self._chId].title = ''.join(self._lines)
             self._lines = []
@@ -141,24 +138,13 @@ class OdtRImport(OdtRFormatted):
                 self.novel.scenes[self._scId].status = 1
                 self.novel.scenes[self._scId].scType = 0
                 self.novel.scenes[self._scId].title = f'{_("Scene")} {self._scCount}'
-            try:
-                if attrs[0][0] == 'lang':
-                    self._language = attrs[0][1]
-                    if not self._language in self.novel.languages:
-                        self.novel.languages.append(self._language)
-                    self._lines.append(f'[lang={self._language}]')
-            except:
-                pass
+            self._start_language(attrs)
         elif tag == 'em' and not self._heading:
             self._lines.append('[i]')
         elif tag == 'strong' and not self._heading:
             self._lines.append('[b]')
         elif tag == 'lang' and not self._heading:
-            if attrs[0][0] == 'lang':
-                self._language = attrs[0][1]
-                if not self._language in self.novel.languages:
-                    self.novel.languages.append(self._language)
-                self._lines.append(f'[lang={self._language}]')
+            self._start_language(attrs)
         elif tag in ('h1', 'h2'):
             self._scId = None
             self._lines = []
@@ -195,14 +181,7 @@ class OdtRImport(OdtRFormatted):
                 self._lines.append(f'{self._BULLET} ')
         elif tag == 'blockquote':
             self._lines.append(f'{self._INDENT} ')
-            try:
-                if attrs[0][0] == 'lang':
-                    self._language = attrs[0][1]
-                    if not self._language in self.novel.languages:
-                        self.novel.languages.append(self._language)
-                    self._lines.append(f'[lang={self._language}]')
-            except:
-                pass
+            self._start_language(attrs)
         elif tag == 's':
             self._lines.append(' ')
 
diff --git a/src/pywriter/odt_r/odt_r_manuscript.py b/src/pywriter/odt_r/odt_r_manuscript.py
index 6fb8089..1f80ae9 100644
--- a/src/pywriter/odt_r/odt_r_manuscript.py
+++ b/src/pywriter/odt_r/odt_r_manuscript.py
@@ -73,18 +73,15 @@ class OdtRManuscript(OdtRFormatted):
         """
         if self._scId is not None:
             if tag in ('p', 'blockquote'):
-                if self._language:
-                    self._lines.append(f'[/lang={self._language}]')
-                    self._language = ''
+                while self._languages:
+                    self._end_language()
                 self._lines.append('\n')
             elif tag == 'em':
                 self._lines.append('[/i]')
             elif tag == 'strong':
                 self._lines.append('[/b]')
             elif tag == 'lang':
-                if self._language:
-                    self._lines.append(f'[/lang={self._language}]')
-                    self._language = ''
+                self._end_language()
             elif tag == 'div':
                 text = ''.join(self._lines)
                 self.novel.scenes[self._scId].sceneContent = self._cleanup_scene(text).rstrip()
@@ -114,14 +111,7 @@ class OdtRManuscript(OdtRFormatted):
             elif tag == 'strong':
                 self._lines.append('[b]')
             elif tag in ('lang', 'p'):
-                try:
-                    if attrs[0][0] == 'lang':
-                        self._language = attrs[0][1]
-                        if not self._language in self.novel.languages:
-                            self.novel.languages.append(self._language)
-                        self._lines.append(f'[lang={self._language}]')
-                except:
-                    pass
+                self._start_language(attrs)
             elif tag == 'h3':
                 self._skip_data = True
                 # this is for downward compatibility with "notes" and "todo"
@@ -134,14 +124,7 @@ class OdtRManuscript(OdtRFormatted):
                 self._lines.append(f'{self._BULLET} ')
             elif tag == 'blockquote':
                 self._lines.append(f'{self._INDENT} ')
-                try:
-                    if attrs[0][0] == 'lang':
-                        self._language = attrs[0][1]
-                        if not self._language in self.novel.languages:
-                            self.novel.languages.append(self._language)
-                        self._lines.append(f'[lang={self._language}]')
-                except:
-                    pass
+                self._start_language(attrs)
         elif tag == 'body':
             for attr in attrs:
                 if attr[0] == 'language':
diff --git a/src/pywriter/odt_r/odt_r_proof.py b/src/pywriter/odt_r/odt_r_proof.py
index 97b05b6..8200828 100644
--- a/src/pywriter/odt_r/odt_r_proof.py
+++ b/src/pywriter/odt_r/odt_r_proof.py
@@ -57,18 +57,15 @@ class OdtRProof(OdtRFormatted):
         Overrides the superclass method.
         """
         if tag in ['p', 'h2', 'h1', 'blockquote']:
+            while self._languages:
+                self._end_language()
             self._lines.append('\n')
-            if self._language:
-                self._lines.append(f'[/lang={self._language}]')
-                self._language = ''
         elif tag == 'em':
             self._lines.append('[/i]')
         elif tag == 'strong':
             self._lines.append('[/b]')
         elif tag == 'lang':
-            if self._language:
-                self._lines.append(f'[/lang={self._language}]')
-                self._language = ''
+            self._end_language()
 
     def handle_starttag(self, tag, attrs):
         """Recognize the paragraph's beginning.
@@ -84,14 +81,7 @@ class OdtRProof(OdtRFormatted):
         elif tag == 'strong':
             self._lines.append('[b]')
         elif tag in ('lang', 'p'):
-            try:
-                if attrs[0][0] == 'lang':
-                    self._language = attrs[0][1]
-                    if not self._language in self.novel.languages:
-                        self.novel.languages.append(self._language)
-                    self._lines.append(f'[lang={self._language}]')
-            except:
-                pass
+            self._start_language(attrs)
         elif tag == 'h2':
             self._lines.append(f'{Splitter.CHAPTER_SEPARATOR} ')
         elif tag == 'h1':
@@ -100,14 +90,7 @@ class OdtRProof(OdtRFormatted):
             self._lines.append(f'{self._BULLET} ')
         elif tag == 'blockquote':
             self._lines.append(f'{self._INDENT} ')
-            try:
-                if attrs[0][0] == 'lang':
-                    self._language = attrs[0][1]
-                    if not self._language in self.novel.languages:
-                        self.novel.languages.append(self._language)
-                    self._lines.append(f'[lang={self._language}]')
-            except:
-                pass
+            self._start_language(attrs)
         elif tag == 'body':
             for attr in attrs:
                 if attr[0] == 'language':
diff --git a/src/pywriter/odt_r/odt_reader.py b/src/pywriter/odt_r/odt_reader.py
index 154c34e..69bec80 100644
--- a/src/pywriter/odt_r/odt_reader.py
+++ b/src/pywriter/odt_r/odt_reader.py
@@ -55,7 +55,8 @@ class OdtReader(File, ABC):
         self._scId = None
         self._chId = None
         self._newline = False
-        self._language = ''
+        self._languages = []
+        # stack of language codes
         self._skip_data = False
 
     def handle_comment(self, data):
-- 
2.43.0


From 5a71aba26c9ad113aea4a2f713b201498cd3da48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 23/59] fix: keep the blanks between differently formatted
 words on import

---
 src/pywriter/odt_r/odt_r_chapterdesc.py | 2 +-
 src/pywriter/odt_r/odt_r_characters.py  | 2 +-
 src/pywriter/odt_r/odt_r_items.py       | 2 +-
 src/pywriter/odt_r/odt_r_locations.py   | 2 +-
 src/pywriter/odt_r/odt_r_manuscript.py  | 3 +--
 5 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_chapterdesc.py b/src/pywriter/odt_r/odt_r_chapterdesc.py
index c9e5133..fc893ca 100644
--- a/src/pywriter/odt_r/odt_r_chapterdesc.py
+++ b/src/pywriter/odt_r/odt_r_chapterdesc.py
@@ -49,4 +49,4 @@ class OdtRChapterDesc(OdtReader):
         Overrides the superclass method.
         """
         if self._chId is not None:
-            self._lines.append(data.strip())
+            self._lines.append(data)
diff --git a/src/pywriter/odt_r/odt_r_characters.py b/src/pywriter/odt_r/odt_r_characters.py
index 93106cd..6e5972f 100644
--- a/src/pywriter/odt_r/odt_r_characters.py
+++ b/src/pywriter/odt_r/odt_r_characters.py
@@ -46,7 +46,7 @@ class OdtRCharacters(OdtReader):
         Overrides the superclass method.
         """
         if self._section is not None:
-            self._lines.append(data.strip())
+            self._lines.append(data)
 
     def handle_endtag(self, tag):
         """Recognize the end of the character section and save data.
diff --git a/src/pywriter/odt_r/odt_r_items.py b/src/pywriter/odt_r/odt_r_items.py
index d927bef..b3633ea 100644
--- a/src/pywriter/odt_r/odt_r_items.py
+++ b/src/pywriter/odt_r/odt_r_items.py
@@ -45,7 +45,7 @@ class OdtRItems(OdtReader):
         Overrides the superclass method.
         """
         if self._itId is not None:
-            self._lines.append(data.strip())
+            self._lines.append(data)
 
     def handle_endtag(self, tag):
         """Recognize the end of the item section and save data.
diff --git a/src/pywriter/odt_r/odt_r_locations.py b/src/pywriter/odt_r/odt_r_locations.py
index e365407..6ac6cc2 100644
--- a/src/pywriter/odt_r/odt_r_locations.py
+++ b/src/pywriter/odt_r/odt_r_locations.py
@@ -45,7 +45,7 @@ class OdtRLocations(OdtReader):
         Overrides the superclass method.
         """
         if self._lcId is not None:
-            self._lines.append(data.strip())
+            self._lines.append(data)
 
     def handle_endtag(self, tag):
         """Recognize the end of the location section and save data.
diff --git a/src/pywriter/odt_r/odt_r_manuscript.py b/src/pywriter/odt_r/odt_r_manuscript.py
index 1f80ae9..94775d8 100644
--- a/src/pywriter/odt_r/odt_r_manuscript.py
+++ b/src/pywriter/odt_r/odt_r_manuscript.py
@@ -57,8 +57,7 @@ class OdtRManuscript(OdtRFormatted):
         if self._skip_data:
             self._skip_data = False
         elif self._scId is not None:
-            if not data.isspace():
-                self._lines.append(data)
+            self._lines.append(data)
         elif self._chId is not None:
             if self.novel.chapters[self._chId].title is None:
                 self.novel.chapters[self._chId].title = data.strip()
-- 
2.43.0


From 73bcb3d647a7d5931ef52704ba442876e94351d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 24/59] fix: keep comments that contain a tilde on import

---
 src/pywriter/odt_r/odt_r_manuscript.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_manuscript.py b/src/pywriter/odt_r/odt_r_manuscript.py
index 94775d8..8e11ccc 100644
--- a/src/pywriter/odt_r/odt_r_manuscript.py
+++ b/src/pywriter/odt_r/odt_r_manuscript.py
@@ -33,18 +33,14 @@ class OdtRManuscript(OdtRFormatted):
         Overrides the superclass method.
         """
         if self._scId is not None:
-            if not self._lines:
-                # Comment is at scene start
-                pass
-            if self._SC_TITLE_BRACKET in data:
+            data = data.strip()
+            title = data.split('\n')[0].strip()
+            if len(title) > 1 and title.startswith(self._SC_TITLE_BRACKET) and title.endswith(self._SC_TITLE_BRACKET):
                 # Comment is marked as a scene title
-                try:
-                    self.novel.scenes[self._scId].title = data.split(self._SC_TITLE_BRACKET)[1].strip()
-                except:
-                    pass
+                self.novel.scenes[self._scId].title = title[1:-1].strip()
                 return
 
-            self._lines.append(f'{self._COMMENT_START}{data.strip()}{self._COMMENT_END}')
+            self._lines.append(f'{self._COMMENT_START}{data}{self._COMMENT_END}')
 
     def handle_data(self, data):
         """Collect data within scene sections.
-- 
2.43.0


From 7e3f4ec5018744a2036beb3af6d74b0d7fae2c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 25/59] fix: do not import scene titles as titles of untitled
 chapters

---
 src/pywriter/odt_r/odt_r_manuscript.py | 14 +++++++++-----
 src/pywriter/odt_r/odt_r_scenedesc.py  | 10 ++++++----
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_manuscript.py b/src/pywriter/odt_r/odt_r_manuscript.py
index 8e11ccc..feca8ee 100644
--- a/src/pywriter/odt_r/odt_r_manuscript.py
+++ b/src/pywriter/odt_r/odt_r_manuscript.py
@@ -51,12 +51,9 @@ class OdtRManuscript(OdtRFormatted):
         Overrides the superclass method.
         """
         if self._skip_data:
-            self._skip_data = False
-        elif self._scId is not None:
+            pass
+        elif self._scId is not None or self._chId is not None:
             self._lines.append(data)
-        elif self._chId is not None:
-            if self.novel.chapters[self._chId].title is None:
-                self.novel.chapters[self._chId].title = data.strip()
 
     def handle_endtag(self, tag):
         """Recognize the end of the scene section and save data.
@@ -86,9 +83,16 @@ class OdtRManuscript(OdtRFormatted):
                 self._lines.append('\n')
             elif tag == 'h2':
                 self._lines.append('\n')
+            elif tag == 'h3':
+                self._skip_data = False
         elif self._chId is not None:
             if tag == 'div':
                 self._chId = None
+            elif tag in ('h1', 'h2'):
+                if self.novel.chapters[self._chId].title is None:
+                    self.novel.chapters[self._chId].title = ''.join(self._lines).strip()
+            self._lines = []
+            # discard text outside the scenes
 
     def handle_starttag(self, tag, attrs):
         """Identify scenes and chapters.
diff --git a/src/pywriter/odt_r/odt_r_scenedesc.py b/src/pywriter/odt_r/odt_r_scenedesc.py
index 888c565..a527148 100644
--- a/src/pywriter/odt_r/odt_r_scenedesc.py
+++ b/src/pywriter/odt_r/odt_r_scenedesc.py
@@ -28,11 +28,8 @@ class OdtRSceneDesc(OdtReader):
         
         Overrides the superclass method.
         """
-        if self._scId is not None:
+        if self._scId is not None or self._chId is not None:
             self._lines.append(data)
-        elif self._chId is not None:
-            if not self.novel.chapters[self._chId].title:
-                self.novel.chapters[self._chId].title = data.strip()
 
     def handle_endtag(self, tag):
         """Recognize the end of the scene section and save data.
@@ -63,4 +60,9 @@ class OdtRSceneDesc(OdtReader):
         elif self._chId is not None:
             if tag == 'div':
                 self._chId = None
+            elif tag in ('h1', 'h2'):
+                if not self.novel.chapters[self._chId].title:
+                    self.novel.chapters[self._chId].title = ''.join(self._lines).strip()
+            self._lines = []
+            # discard text outside the scenes
 
-- 
2.43.0


From f4af5f1aca19a00c5638988cd0c34ce93c5c8f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 26/59] fix: keep leading blank lines and inline asterisks on
 import

---
 src/pywriter/odt_r/odt_r_import.py | 2 +-
 src/pywriter/odt_r/odt_r_proof.py  | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_import.py b/src/pywriter/odt_r/odt_r_import.py
index 76e4bad..1afc2c9 100644
--- a/src/pywriter/odt_r/odt_r_import.py
+++ b/src/pywriter/odt_r/odt_r_import.py
@@ -79,7 +79,7 @@ class OdtRImport(OdtRFormatted):
         
         Overrides the superclass method.
         """
-        if self._scId is not None and self._SCENE_DIVIDER in data:
+        if self._scId is not None and data.strip() == self._SCENE_DIVIDER:
             self._scId = None
         else:
             self._lines.append(data)
diff --git a/src/pywriter/odt_r/odt_r_proof.py b/src/pywriter/odt_r/odt_r_proof.py
index 8200828..d34fa52 100644
--- a/src/pywriter/odt_r/odt_r_proof.py
+++ b/src/pywriter/odt_r/odt_r_proof.py
@@ -40,7 +40,10 @@ class OdtRProof(OdtRFormatted):
             elif '[/ScID' in data:
                 if self._scId in self.novel.scenes:
                     text = ''.join(self._lines)
-                    self.novel.scenes[self._scId].sceneContent = self._cleanup_scene(text).strip()
+                    if text.startswith('\n'):
+                        # Remove the line break after the scene start marker.
+                        text = text[1:]
+                    self.novel.scenes[self._scId].sceneContent = self._cleanup_scene(text).rstrip()
                     self._lines = []
                 self._scId = None
             elif self._scId is not None:
-- 
2.43.0


From 2ab84e0bd130c7f204ddf01dcb024648970e0b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 27/59] fix: keep formatted titles of new chapters on import

---
 src/pywriter/odt_r/odt_r_manuscript.py | 5 +++--
 src/pywriter/odt_r/odt_r_scenedesc.py  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_manuscript.py b/src/pywriter/odt_r/odt_r_manuscript.py
index feca8ee..eefbc64 100644
--- a/src/pywriter/odt_r/odt_r_manuscript.py
+++ b/src/pywriter/odt_r/odt_r_manuscript.py
@@ -91,8 +91,9 @@ class OdtRManuscript(OdtRFormatted):
             elif tag in ('h1', 'h2'):
                 if self.novel.chapters[self._chId].title is None:
                     self.novel.chapters[self._chId].title = ''.join(self._lines).strip()
-            self._lines = []
-            # discard text outside the scenes
+            if not tag in ('em', 'strong', 'lang'):
+                # Discard text outside the scenes.
+                self._lines = []
 
     def handle_starttag(self, tag, attrs):
         """Identify scenes and chapters.
diff --git a/src/pywriter/odt_r/odt_r_scenedesc.py b/src/pywriter/odt_r/odt_r_scenedesc.py
index a527148..2b66b21 100644
--- a/src/pywriter/odt_r/odt_r_scenedesc.py
+++ b/src/pywriter/odt_r/odt_r_scenedesc.py
@@ -63,6 +63,7 @@ class OdtRSceneDesc(OdtReader):
             elif tag in ('h1', 'h2'):
                 if not self.novel.chapters[self._chId].title:
                     self.novel.chapters[self._chId].title = ''.join(self._lines).strip()
-            self._lines = []
-            # discard text outside the scenes
+            if not tag in ('em', 'strong', 'lang'):
+                # Discard text outside the scenes.
+                self._lines = []
 
-- 
2.43.0


From 8f24257fa81fb54cd57443897dcdb95cb402e4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 28/59] fix: import scenes that begin with a list or a
 quotation

---
 src/pywriter/odt_r/odt_r_import.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_import.py b/src/pywriter/odt_r/odt_r_import.py
index 1afc2c9..c862b5f 100644
--- a/src/pywriter/odt_r/odt_r_import.py
+++ b/src/pywriter/odt_r/odt_r_import.py
@@ -128,7 +128,7 @@ class OdtRImport(OdtRFormatted):
         
         Overrides the superclass method.
         """
-        if tag == 'p':
+        if tag in ('p', 'li', 'blockquote'):
             if self._scId is None and self._chId is not None:
                 self._lines = []
                 self._scCount += 1
@@ -138,6 +138,10 @@ class OdtRImport(OdtRFormatted):
                 self.novel.scenes[self._scId].status = 1
                 self.novel.scenes[self._scId].scType = 0
                 self.novel.scenes[self._scId].title = f'{_("Scene")} {self._scCount}'
+            if tag == 'li':
+                self._lines.append(f'{self._BULLET} ')
+            elif tag == 'blockquote':
+                self._lines.append(f'{self._INDENT} ')
             self._start_language(attrs)
         elif tag == 'em' and not self._heading:
             self._lines.append('[i]')
@@ -177,11 +181,6 @@ class OdtRImport(OdtRFormatted):
                 elif attr[0] == 'country':
                     if attr[1]:
                         self.novel.countryCode = attr[1]
-        elif tag == 'li':
-                self._lines.append(f'{self._BULLET} ')
-        elif tag == 'blockquote':
-            self._lines.append(f'{self._INDENT} ')
-            self._start_language(attrs)
         elif tag == 's':
             self._lines.append(' ')
 
-- 
2.43.0


From 03ea84538657ffc16e4dadb69a2bf6d4efd41234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 29/59] fix: import the text of document sections into new
 projects

---
 src/pywriter/odt_r/odt_r_import.py  | 3 ---
 src/pywriter/odt_r/odt_r_outline.py | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_import.py b/src/pywriter/odt_r/odt_r_import.py
index c862b5f..36252a3 100644
--- a/src/pywriter/odt_r/odt_r_import.py
+++ b/src/pywriter/odt_r/odt_r_import.py
@@ -163,9 +163,6 @@ class OdtRImport(OdtRFormatted):
             else:
                 self.novel.chapters[self._chId].chLevel = 0
             self._heading = True
-        elif tag == 'div':
-            self._scId = None
-            self._chId = None
         elif tag == 'meta':
             if attrs[0][1] == 'author':
                 self.novel.authorName = attrs[1][1]
diff --git a/src/pywriter/odt_r/odt_r_outline.py b/src/pywriter/odt_r/odt_r_outline.py
index c41f90b..ad2ac88 100644
--- a/src/pywriter/odt_r/odt_r_outline.py
+++ b/src/pywriter/odt_r/odt_r_outline.py
@@ -111,9 +111,6 @@ class OdtROutline(OdtReader):
             self.novel.scenes[self._scId].sceneContent = ''
             self.novel.scenes[self._scId].status = 1
             self.novel.scenes[self._scId].scType = 0
-        elif tag == 'div':
-            self._scId = None
-            self._chId = None
         elif tag == 'meta':
             if attrs[0][1] == 'author':
                 self.novel.authorName = attrs[1][1]
-- 
2.43.0


From 9f7fdf0fb02138d0f5012daf88736a2c39362ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:28 +0000
Subject: [PATCH 30/59] fix: import outlines with quotations or without chapter
 headings

---
 src/pywriter/odt_r/odt_r_outline.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_outline.py b/src/pywriter/odt_r/odt_r_outline.py
index ad2ac88..aadbdaa 100644
--- a/src/pywriter/odt_r/odt_r_outline.py
+++ b/src/pywriter/odt_r/odt_r_outline.py
@@ -64,7 +64,7 @@ class OdtROutline(OdtReader):
         Overrides the superclass method.
         """
         text = ''.join(self._lines)
-        if tag == 'p':
+        if tag in ('p', 'blockquote'):
             text = f'{text.strip()}\n'
             self._lines = [text]
             if self._scId is not None:
@@ -92,18 +92,18 @@ class OdtROutline(OdtReader):
         if tag in ('h1', 'h2'):
             self._scId = None
             self._lines = []
-            self._chCount += 1
-            self._chId = str(self._chCount)
-            self.novel.chapters[self._chId] = Chapter()
-            self.novel.chapters[self._chId].srtScenes = []
-            self.novel.srtChapters.append(self._chId)
-            self.novel.chapters[self._chId].chType = 0
+            self._create_chapter()
             if tag == 'h1':
                 self.novel.chapters[self._chId].chLevel = 1
             else:
                 self.novel.chapters[self._chId].chLevel = 0
         elif tag == 'h3':
             self._lines = []
+            if self._chId is None:
+                # Scene heading without a chapter heading above.
+                self._create_chapter()
+                self.novel.chapters[self._chId].title = _('New Chapter')
+                self.novel.chapters[self._chId].chLevel = 0
             self._scCount += 1
             self._scId = str(self._scCount)
             self.novel.scenes[self._scId] = Scene()
@@ -128,3 +128,12 @@ class OdtROutline(OdtReader):
                         self.novel.countryCode = attr[1]
         elif tag == 's':
             self._lines.append(' ')
+
+    def _create_chapter(self):
+        """Append a new chapter to the novel."""
+        self._chCount += 1
+        self._chId = str(self._chCount)
+        self.novel.chapters[self._chId] = Chapter()
+        self.novel.chapters[self._chId].srtScenes = []
+        self.novel.srtChapters.append(self._chId)
+        self.novel.chapters[self._chId].chType = 0
-- 
2.43.0


From 252be75476c97050ee51270c79cb3cb8250a4925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 31/59] fix: report unsupported files if no new project can be
 created

---
 src/pywriter/converter/yw_cnv_ff.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pywriter/converter/yw_cnv_ff.py b/src/pywriter/converter/yw_cnv_ff.py
index 13b0418..b3ec362 100644
--- a/src/pywriter/converter/yw_cnv_ff.py
+++ b/src/pywriter/converter/yw_cnv_ff.py
@@ -76,6 +76,9 @@ class YwCnvFf(YwCnvUi):
             except Error:
                 # A new yWriter project might be required.
                 try:
+                    if self.newProjectFactory is None:
+                        raise Error(f'{_("File type is not supported")}: "{norm_path(sourcePath)}".')
+
                     source, target = self.newProjectFactory.make_file_objects(sourcePath, **kwargs)
                 except Error as ex:
                     self.ui.set_info_how(f'!{str(ex)}')
-- 
2.43.0


From d6db0bef77cb36a462055ae0633c2e0681fbd447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:02 +0000
Subject: [PATCH 32/59] fix: keep settings with percent signs, and ignore
 unreadable settings

---
 src/pywriter/config/configuration.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pywriter/config/configuration.py b/src/pywriter/config/configuration.py
index 9d62a3b..bfa79ff 100644
--- a/src/pywriter/config/configuration.py
+++ b/src/pywriter/config/configuration.py
@@ -5,6 +5,7 @@ For further information see https://github.com/peter88213/PyWriter
 Published under the MIT License (https://opensource.org/licenses/mit-license.php)
 """
 from configparser import ConfigParser
+from configparser import Error as ConfigParserError
 
 
 class Configuration:
@@ -45,8 +46,12 @@ class Configuration:
             
         Settings and options that can not be read in, remain unchanged.
         """
-        config = ConfigParser()
-        config.read(iniFile, encoding='utf-8')
+        config = ConfigParser(interpolation=None)
+        try:
+            config.read(iniFile, encoding='utf-8')
+        except (ConfigParserError, UnicodeDecodeError):
+            return
+
         if config.has_section(self._sLabel):
             section = config[self._sLabel]
             for setting in self.settings:
@@ -56,7 +61,10 @@ class Configuration:
             section = config[self._oLabel]
             for option in self.options:
                 fallback = self.options[option]
-                self.options[option] = section.getboolean(option, fallback)
+                try:
+                    self.options[option] = section.getboolean(option, fallback)
+                except ValueError:
+                    pass
 
     def set(self, settings=None, options=None):
         """Set the entire configuration without writing the INI file.
@@ -76,7 +84,7 @@ class Configuration:
         Positional arguments:
             iniFile: str -- path configuration file path.
         """
-        config = ConfigParser()
+        config = ConfigParser(interpolation=None)
         if self.settings:
             config.add_section(self._sLabel)
             for settingId in self.settings:
-- 
2.43.0


From b88b9cb91d2e2211a34ccf5282abf7d879c2a769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 33/59] fix: remove the custom fields of scenes and project
 notes permanently

---
 src/pywriter/yw/yw7_purge.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/yw/yw7_purge.py b/src/pywriter/yw/yw7_purge.py
index 68119f5..e8709e8 100644
--- a/src/pywriter/yw/yw7_purge.py
+++ b/src/pywriter/yw/yw7_purge.py
@@ -35,6 +35,11 @@ def reset_custom_variables(prjFile):
             if prjFile.novel.scenes[scId].kwVar.get(field, None):
                 prjFile.novel.scenes[scId].kwVar[field] = ''
                 hasChanged = True
+        # Reset the instance variables derived from custom fields.
+        if prjFile.novel.scenes[scId].scnArcs or prjFile.novel.scenes[scId].scnMode:
+            hasChanged = True
+        prjFile.novel.scenes[scId].scnArcs = None
+        prjFile.novel.scenes[scId].scnMode = None
     for crId in prjFile.novel.characters:
         for field in prjFile.CRT_KWVAR:
             if prjFile.novel.characters[crId].kwVar.get(field, None):
@@ -52,8 +57,8 @@ def reset_custom_variables(prjFile):
                 hasChanged = True
     for pnId in prjFile.novel.projectNotes:
         for field in prjFile.PNT_KWVAR:
-            if prjFile.novel.projectnotes[pnId].kwVar.get(field, None):
-                prjFile.novel.projectnotes[pnId].kwVar[field] = ''
+            if prjFile.novel.projectNotes[pnId].kwVar.get(field, None):
+                prjFile.novel.projectNotes[pnId].kwVar[field] = ''
                 hasChanged = True
     return hasChanged
 
-- 
2.43.0


From a4bfaeaf290e7ed16218132292786c8385d933ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 34/59] fix: keep the scene text if a new chapter begins with a
 scene separator

---
 src/pywriter/model/splitter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/model/splitter.py b/src/pywriter/model/splitter.py
index 9a069b0..4c585b2 100644
--- a/src/pywriter/model/splitter.py
+++ b/src/pywriter/model/splitter.py
@@ -129,7 +129,7 @@ class Splitter:
 
                 # Search scene content for dividers.
                 for line in lines:
-                    heading = line.strip('# ').split(self.DESC_SEPARATOR)
+                    heading = line.strip('# ').split(self.DESC_SEPARATOR, maxsplit=1)
                     title = heading[0]
                     try:
                         desc = heading[1]
@@ -137,8 +137,9 @@ class Splitter:
                         desc = ''
                     if line.startswith(self.SCENE_SEPARATOR):
                         # Split the scene.
-                        file.novel.scenes[sceneId].sceneContent = '\n'.join(newLines)
-                        newLines = []
+                        if inScene:
+                            file.novel.scenes[sceneId].sceneContent = '\n'.join(newLines)
+                            newLines = []
                         sceneSplitCount += 1
                         sceneId = create_id(file.novel.scenes)
                         create_scene(sceneId, file.novel.scenes[scId], sceneSplitCount, title, desc)
@@ -174,6 +175,7 @@ class Splitter:
                             title = _('New Part')
                         create_chapter(chapterId, title, desc, 1)
                         srtChapters.append(chapterId)
+                        scenesSplit = True
                     elif not inScene:
                         # Append a scene without heading to a new chapter or part.
                         newLines.append(line)
-- 
2.43.0


From 9532738225067f5c7a3f774b956ff84e71864142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 35/59] fix: restore the project if the saved file cannot be
 completed

---
 src/pywriter/yw/yw7_file.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 5fb5ae3..4702b82 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -200,8 +200,13 @@ class Yw7File(File):
                     self.novel.scenes[scId].kwVar['Field_SceneMode'] = str(self.novel.scenes[scId].scnMode)
             self.novel.scenes[scId].kwVar['Field_SceneStyle'] = None
         self._build_element_tree()
-        self._write_element_tree(self)
-        self._postprocess_xml_file(self.filePath)
+        backedUp = self._write_element_tree(self)
+        try:
+            self._postprocess_xml_file(self.filePath)
+        except:
+            if backedUp:
+                os.replace(f'{self.filePath}.bak', self.filePath)
+            raise
 
     def _build_element_tree(self):
         """Modify the yWriter project attributes of an existing xml element tree."""
@@ -1685,6 +1690,7 @@ class Yw7File(File):
     def _write_element_tree(self, ywProject):
         """Write back the xml element tree to a .yw7 xml file located at filePath.
         
+        Return True, if there is a backup copy of an overwritten file.
         Raise the "Error" exception in case of error. 
         """
         backedUp = False
@@ -1702,3 +1708,5 @@ class Yw7File(File):
                 os.replace(f'{ywProject.filePath}.bak', ywProject.filePath)
             raise Error(f'{_("Cannot write file")}: "{norm_path(ywProject.filePath)}".')
 
+        return backedUp
+
-- 
2.43.0


From 2fa3078f09f7ede5fceffb1911010839bb081745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:33 +0000
Subject: [PATCH 36/59] fix: write the media type entry of documents first and
 uncompressed

---
 src/pywriter/odf/odf_file.py     | 5 ++++-
 src/pywriter/ods_w/ods_writer.py | 2 +-
 src/pywriter/odt_w/odt_writer.py | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/odf/odf_file.py b/src/pywriter/odf/odf_file.py
index 2778ab9..13ec1a2 100644
--- a/src/pywriter/odf/odf_file.py
+++ b/src/pywriter/odf/odf_file.py
@@ -86,7 +86,10 @@ class OdfFile(FileExport):
             with zipfile.ZipFile(self.filePath, 'w') as odfTarget:
                 os.chdir(self._tempDir)
                 for file in self._ODF_COMPONENTS:
-                    odfTarget.write(file, compress_type=zipfile.ZIP_DEFLATED)
+                    if file == 'mimetype':
+                        odfTarget.write(file, compress_type=zipfile.ZIP_STORED)
+                    else:
+                        odfTarget.write(file, compress_type=zipfile.ZIP_DEFLATED)
         except:
             os.chdir(workdir)
             if backedUp:
diff --git a/src/pywriter/ods_w/ods_writer.py b/src/pywriter/ods_w/ods_writer.py
index cb58888..53b5dfb 100644
--- a/src/pywriter/ods_w/ods_writer.py
+++ b/src/pywriter/ods_w/ods_writer.py
@@ -12,7 +12,7 @@ from pywriter.odf.odf_file import OdfFile
 class OdsWriter(OdfFile):
     """Generic OpenDocument spreadsheet document writer."""
     EXTENSION = '.ods'
-    _ODF_COMPONENTS = ['META-INF', 'content.xml', 'meta.xml', 'mimetype',
+    _ODF_COMPONENTS = ['mimetype', 'META-INF', 'content.xml', 'meta.xml',
                       'settings.xml', 'styles.xml', 'META-INF/manifest.xml']
 
     # Column width:
diff --git a/src/pywriter/odt_w/odt_writer.py b/src/pywriter/odt_w/odt_writer.py
index 4ff264d..3f1c39e 100644
--- a/src/pywriter/odt_w/odt_writer.py
+++ b/src/pywriter/odt_w/odt_writer.py
@@ -16,7 +16,7 @@ class OdtWriter(OdfFile):
     EXTENSION = '.odt'
     # overwrites Novel.EXTENSION
 
-    _ODF_COMPONENTS = ['manifest.rdf', 'META-INF', 'content.xml', 'meta.xml', 'mimetype',
+    _ODF_COMPONENTS = ['mimetype', 'manifest.rdf', 'META-INF', 'content.xml', 'meta.xml',
                       'settings.xml', 'styles.xml', 'META-INF/manifest.xml']
 
     _CONTENT_XML_HEADER = '''<?xml version="1.0" encoding="UTF-8"?>
-- 
2.43.0


From 6c8baabcff00ad59a13120393e44b36edf27b87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 37/59] fix: report a missing temporary directory on export

---
 src/pywriter/odf/odf_file.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odf/odf_file.py b/src/pywriter/odf/odf_file.py
index 13ec1a2..a4b634c 100644
--- a/src/pywriter/odf/odf_file.py
+++ b/src/pywriter/odf/odf_file.py
@@ -42,7 +42,11 @@ class OdfFile(FileExport):
         Extends the superclass constructor,        
         """
         super().__init__(filePath, **kwargs)
-        self._tempDir = tempfile.mkdtemp(suffix='.tmp', prefix='odf_')
+        try:
+            self._tempDir = tempfile.mkdtemp(suffix='.tmp', prefix='odf_')
+        except:
+            raise Error(f'{_("Cannot create directory")}.')
+
         self._originalPath = self._filePath
 
     def __del__(self):
-- 
2.43.0


From 7327dd888f14847f2f176a1040f2e7ff62595017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:43 +0000
Subject: [PATCH 38/59] fix: do not count multi-line and empty comments as text

---
 src/pywriter/model/scene.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/model/scene.py b/src/pywriter/model/scene.py
index 132252a..fb207ea 100644
--- a/src/pywriter/model/scene.py
+++ b/src/pywriter/model/scene.py
@@ -14,11 +14,11 @@ from pywriter.pywriter_globals import *
 ADDITIONAL_WORD_LIMITS = re.compile(r'--|—|–')
 # this is to be replaced by spaces, thus making dashes and dash replacements word limits
 
-NO_WORD_LIMITS = re.compile(r'\[.+?\]|\/\*.+?\*\/|-|^\>', re.MULTILINE)
+NO_WORD_LIMITS = re.compile(r'\[.+?\]|\/\*(?s:.*?)\*\/|-|^\>', re.MULTILINE)
 # this is to be replaced by empty strings, thus excluding markup and comments from
 # word counting, and making hyphens join words
 
-NON_LETTERS = re.compile(r'\[.+?\]|\/\*.+?\*\/|\n|\r')
+NON_LETTERS = re.compile(r'\[.+?\]|\/\*(?s:.*?)\*\/|\n|\r')
 # this is to be replaced by empty strings, thus excluding markup, comments, and linefeeds
 # from letter counting
 
-- 
2.43.0


From 01ed1f986be7f7cee9f8c93a5db72787872ee224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:50 +0000
Subject: [PATCH 39/59] fix: White space between the paragraphs of a comment is
 not part of the comment

---
 src/pywriter/odt_r/odt_parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index 0e62a5e..f36b161 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -48,6 +48,7 @@ class OdtParser(sax.ContentHandler):
         self._heading = None
         self._paragraph = False
         self._commentParagraphCount = None
+        self._commentParagraph = False
         self._commentTag = None
         self._blockquote = False
         self._list = False
@@ -149,6 +150,8 @@ class OdtParser(sax.ContentHandler):
                 else:
                     self._client.handle_endtag('p')
                 self._paragraph = False
+            else:
+                self._commentParagraph = False
         elif name == 'text:span':
             if self._span:
                 self._end_span()
@@ -187,6 +190,7 @@ class OdtParser(sax.ContentHandler):
                 param = [('lang', self._languageTags[style])]
             if self._commentParagraphCount is not None:
                 self._commentParagraphCount += 1
+                self._commentParagraph = True
                 if self._commentParagraphCount > 1:
                     self._comment = f'{self._comment}\n'
             elif style in self._blockquoteTags:
@@ -291,7 +295,7 @@ class OdtParser(sax.ContentHandler):
             return
 
         if self._commentParagraphCount is not None:
-            if self._commentParagraphCount > 0:
+            if self._commentParagraph:
                 self._comment = f'{self._comment}{content}'
         elif self._paragraph:
             self._client.handle_data(content)
-- 
2.43.0


From 348fdb598c1c92bea25b58190a1fc101767d5a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:42 +0000
Subject: [PATCH 40/59] fix: Scene descriptions may start with a comment that
 is not a scene title

---
 src/pywriter/odt_r/odt_r_scenedesc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_r_scenedesc.py b/src/pywriter/odt_r/odt_r_scenedesc.py
index 2b66b21..a41af3c 100644
--- a/src/pywriter/odt_r/odt_r_scenedesc.py
+++ b/src/pywriter/odt_r/odt_r_scenedesc.py
@@ -49,7 +49,7 @@ class OdtRSceneDesc(OdtReader):
                         if self._SC_TITLE_BRACKET in scTitle:
                             self.novel.scenes[self._scId].title = scTitle.split(
                                 self._SC_TITLE_BRACKET)[1].strip()
-                        text = scContent
+                            text = scContent
                     except:
                         pass
                 self.novel.scenes[self._scId].desc = text.rstrip()
-- 
2.43.0


From 9f9c718155381f61bb20baab5ca9ac7842c43b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:51 +0000
Subject: [PATCH 41/59] fix: Quotation paragraphs in descriptions are
 paragraphs of their own

---
 src/pywriter/odt_r/odt_r_chapterdesc.py | 2 +-
 src/pywriter/odt_r/odt_r_characters.py  | 2 +-
 src/pywriter/odt_r/odt_r_items.py       | 2 +-
 src/pywriter/odt_r/odt_r_locations.py   | 2 +-
 src/pywriter/odt_r/odt_r_scenedesc.py   | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pywriter/odt_r/odt_r_chapterdesc.py b/src/pywriter/odt_r/odt_r_chapterdesc.py
index fc893ca..0b69aa7 100644
--- a/src/pywriter/odt_r/odt_r_chapterdesc.py
+++ b/src/pywriter/odt_r/odt_r_chapterdesc.py
@@ -33,7 +33,7 @@ class OdtRChapterDesc(OdtReader):
                 self.novel.chapters[self._chId].desc = ''.join(self._lines).rstrip()
                 self._lines = []
                 self._chId = None
-            elif tag == 'p':
+            elif tag in ('p', 'blockquote'):
                 self._lines.append('\n')
             elif tag == 'h1' or tag == 'h2':
                 if not self.novel.chapters[self._chId].title:
diff --git a/src/pywriter/odt_r/odt_r_characters.py b/src/pywriter/odt_r/odt_r_characters.py
index 6e5972f..05629d1 100644
--- a/src/pywriter/odt_r/odt_r_characters.py
+++ b/src/pywriter/odt_r/odt_r_characters.py
@@ -74,7 +74,7 @@ class OdtRCharacters(OdtReader):
                     self.novel.characters[self._crId].notes = ''.join(self._lines).rstrip()
                     self._lines = []
                     self._section = None
-            elif tag == 'p':
+            elif tag in ('p', 'blockquote'):
                 self._lines.append('\n')
 
     def handle_starttag(self, tag, attrs):
diff --git a/src/pywriter/odt_r/odt_r_items.py b/src/pywriter/odt_r/odt_r_items.py
index b3633ea..be9c0bc 100644
--- a/src/pywriter/odt_r/odt_r_items.py
+++ b/src/pywriter/odt_r/odt_r_items.py
@@ -60,7 +60,7 @@ class OdtRItems(OdtReader):
                 self.novel.items[self._itId].desc = ''.join(self._lines).rstrip()
                 self._lines = []
                 self._itId = None
-            elif tag == 'p':
+            elif tag in ('p', 'blockquote'):
                 self._lines.append('\n')
 
     def handle_starttag(self, tag, attrs):
diff --git a/src/pywriter/odt_r/odt_r_locations.py b/src/pywriter/odt_r/odt_r_locations.py
index 6ac6cc2..c2b9a72 100644
--- a/src/pywriter/odt_r/odt_r_locations.py
+++ b/src/pywriter/odt_r/odt_r_locations.py
@@ -60,7 +60,7 @@ class OdtRLocations(OdtReader):
                 self.novel.locations[self._lcId].desc = ''.join(self._lines).rstrip()
                 self._lines = []
                 self._lcId = None
-            elif tag == 'p':
+            elif tag in ('p', 'blockquote'):
                 self._lines.append('\n')
 
     def handle_starttag(self, tag, attrs):
diff --git a/src/pywriter/odt_r/odt_r_scenedesc.py b/src/pywriter/odt_r/odt_r_scenedesc.py
index a41af3c..68bbdf9 100644
--- a/src/pywriter/odt_r/odt_r_scenedesc.py
+++ b/src/pywriter/odt_r/odt_r_scenedesc.py
@@ -55,7 +55,7 @@ class OdtRSceneDesc(OdtReader):
                 self.novel.scenes[self._scId].desc = text.rstrip()
                 self._lines = []
                 self._scId = None
-            elif tag == 'p':
+            elif tag in ('p', 'blockquote'):
                 self._lines.append('\n')
         elif self._chId is not None:
             if tag == 'div':
-- 
2.43.0


From 291969e8b3faf4882a4dd45024d5dfe8d00d4635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:49 +0000
Subject: [PATCH 42/59] fix: Keep tabs and line breaks in table cells

---
 src/pywriter/ods_r/ods_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pywriter/ods_r/ods_parser.py b/src/pywriter/ods_r/ods_parser.py
index 61786a7..404109f 100644
--- a/src/pywriter/ods_r/ods_parser.py
+++ b/src/pywriter/ods_r/ods_parser.py
@@ -61,6 +61,9 @@ class OdsParser:
                 if cell.find('text:p', namespaces) is not None:
                     paragraphs = []
                     for par in cell.findall('text:p', namespaces):
+                        for whitespace, character in (('tab', '\t'), ('line-break', '\n')):
+                            for element in par.iter(f'{{{namespaces["text"]}}}{whitespace}'):
+                                element.text = character
                         strippedText = ''.join(par.itertext())
                         paragraphs.append(strippedText)
                     content = '\n'.join(paragraphs)
-- 
2.43.0


From 94d66e520fe9a2092c512368d74a25557038e867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:51 +0000
Subject: [PATCH 43/59] fix: Read grouped table rows

---
 src/pywriter/ods_r/ods_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/ods_r/ods_parser.py b/src/pywriter/ods_r/ods_parser.py
index 404109f..bd7f713 100644
--- a/src/pywriter/ods_r/ods_parser.py
+++ b/src/pywriter/ods_r/ods_parser.py
@@ -53,7 +53,7 @@ class OdsParser:
         spreadsheet = body.find('office:spreadsheet', namespaces)
         table = spreadsheet.find('table:table', namespaces)
         rows = []
-        for row in table.findall('table:table-row', namespaces):
+        for row in table.iter(f'{{{namespaces["table"]}}}table-row'):
             cells = []
             i = 0
             for cell in row.findall('table:table-cell', namespaces):
-- 
2.43.0


From 0391bf0025748776baba253fa09946facc348b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:54 +0000
Subject: [PATCH 44/59] fix: save projects with incomplete project variables

---
 src/pywriter/yw/yw7_file.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 4702b82..371e1b0 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -715,6 +715,12 @@ class Yw7File(File):
             ET.SubElement(xmlProjectvar, 'Desc').text = desc
             ET.SubElement(xmlProjectvar, 'Tags').text = tags
 
+        def set_projectvariable(xmlProjectvar, desc):
+            xmlDesc = xmlProjectvar.find('Desc')
+            if xmlDesc is None:
+                xmlDesc = ET.SubElement(xmlProjectvar, 'Desc')
+            xmlDesc.text = desc
+
         def build_item_subtree(xmlItm, prjItm):
             if prjItm.title is not None:
                 ET.SubElement(xmlItm, 'Title').text = prjItm.title
@@ -1001,7 +1007,7 @@ class Yw7File(File):
             hasCountryCode = False
             for xmlProjectvar in xmlProjectvars.findall('PROJECTVAR'):
                 prjVars.append(xmlProjectvar.find('ID').text)
-                title = xmlProjectvar.find('Title').text or ''
+                title = xmlProjectvar.findtext('Title') or ''
 
                 # Collect language codes.
                 if title.startswith('lang='):
@@ -1013,11 +1019,11 @@ class Yw7File(File):
 
                 # Get the document's locale.
                 elif title == 'Language':
-                    xmlProjectvar.find('Desc').text = self.novel.languageCode
+                    set_projectvariable(xmlProjectvar, self.novel.languageCode)
                     hasLanguageCode = True
 
                 elif title == 'Country':
-                    xmlProjectvar.find('Desc').text = self.novel.countryCode
+                    set_projectvariable(xmlProjectvar, self.novel.countryCode)
                     hasCountryCode = True
 
             # Define project variables for the missing locale.
-- 
2.43.0


From e708d067f5104418acdb491dbee079d17cce0130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:36 +0000
Subject: [PATCH 45/59] fix: find the modules to inline on all platforms

---
 src/inliner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inliner.py b/src/inliner.py
index 1caa6fb..74897dd 100644
--- a/src/inliner.py
+++ b/src/inliner.py
@@ -62,7 +62,7 @@ def inline_module(file, package, packagePath, text, processedModules, copyPyWrit
                 if 'import' in line:
                     importModule = re.match(r'from (.+?) import.+', line)
                     if (importModule is not None) and (package in importModule.group(1)):
-                        packageName = re.sub(r'\.', r'\/', importModule.group(1))
+                        packageName = importModule.group(1).replace('.', '/')
                         moduleName = f'{packagePath}{packageName}'
                         if not (moduleName in processedModules):
                             processedModules.append(moduleName)
-- 
2.43.0


From 55f6bc963bd268e666ed0160bd4d17471b739e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:39 +0000
Subject: [PATCH 46/59] fix: do not mix the messages of several catalogs

---
 src/msgfmt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/msgfmt.py b/src/msgfmt.py
index 3f731e9..7f90919 100644
--- a/src/msgfmt.py
+++ b/src/msgfmt.py
@@ -101,6 +101,9 @@ def make(filename, outfile):
     STR = 2
     CTXT = 3
 
+    # Discard the messages of any catalog processed before
+    MESSAGES.clear()
+
     # Compute .mo name from .po name and arguments
     if filename.endswith('.po'):
         infile = filename
-- 
2.43.0


From 0b1ec14391e42b4585c293f6733e21e7bb7230fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:24 +0000
Subject: [PATCH 47/59] fix: decode the message next to the catalog header

---
 src/msgfmt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/msgfmt.py b/src/msgfmt.py
index 7f90919..b17621f 100644
--- a/src/msgfmt.py
+++ b/src/msgfmt.py
@@ -157,6 +157,8 @@ def make(filename, outfile):
                     p = HeaderParser()
                     charset = p.parsestr(msgstr.decode(encoding)).get_content_charset()
                     if charset:
+                        # The current line belongs to the message already
+                        l = l.encode(encoding).decode(charset)
                         encoding = charset
             section = ID
             l = l[5:]
-- 
2.43.0


From cc2f1d226b95b283c9e1206d79639096d3ab2e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:51 +0000
Subject: [PATCH 48/59] fix: a fuzzy mark or context holds for one catalog
 entry only

---
 src/msgfmt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/msgfmt.py b/src/msgfmt.py
index b17621f..8206d6d 100644
--- a/src/msgfmt.py
+++ b/src/msgfmt.py
@@ -146,6 +146,7 @@ def make(filename, outfile):
         if l.startswith('msgctxt'):
             if section == STR:
                 add(msgctxt, msgid, msgstr, fuzzy)
+                fuzzy = 0
             section = CTXT
             l = l[7:]
             msgctxt = b''
@@ -160,6 +161,9 @@ def make(filename, outfile):
                         # The current line belongs to the message already
                         l = l.encode(encoding).decode(charset)
                         encoding = charset
+                # This is a new entry, even if there is no comment line
+                msgctxt = None
+                fuzzy = 0
             section = ID
             l = l[5:]
             msgid = msgstr = b''
-- 
2.43.0


From e5740b0c642536d8e7dd4d8c8d0022b7e57d4e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:13 +0000
Subject: [PATCH 49/59] fix: extract messages with quotes and backslashes

---
 src/pgettext.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pgettext.py b/src/pgettext.py
index fb7201b..e2cb9c6 100644
--- a/src/pgettext.py
+++ b/src/pgettext.py
@@ -12,8 +12,8 @@ import re
 from string import Template
 from datetime import datetime
 
-msgPatterns = [re.compile(r'_\(\"(.+?)\"\)'),
-              re.compile(r'_\(\'(.+?)\'\)'),
+msgPatterns = [re.compile(r'_\(\"((?:[^\"\\\n]|\\.)+)\"\)'),
+              re.compile(r'_\(\'((?:[^\'\\\n]|\\.)+)\'\)'),
               ]
 
 potHeader = '''\
@@ -61,7 +61,6 @@ class PotFile:
         self.msgList = list(set(self.msgList))
         self.msgList.sort()
         for message in self.msgList:
-            message = message.replace('"', '\\"')
             entry = f'\nmsgid "{message}"\nmsgstr ""\n'
             potText += entry
         with open(self.filePath, 'w', encoding='utf-8') as f:
@@ -71,7 +70,10 @@ class PotFile:
     def get_messages(self, text):
         result = []
         for msgPattern in msgPatterns:
-            result.extend(msgPattern.findall(text))
+            for message in msgPattern.findall(text):
+                # Escape double quotes only, no matter how the string is quoted in the source code.
+                message = re.sub(r'\\.|"', lambda m: {'"': '\\"', "\\'": "'"}.get(m.group(), m.group()), message)
+                result.append(message)
         return result
 
     def scan_file(self, filename):
-- 
2.43.0


From ef876817c501d8bcfdf1d4e761bc0525f49a8563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:42 +0000
Subject: [PATCH 50/59] fix: read messages and translations that extend over
 several lines

---
 src/translations.py | 69 ++++++++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 29 deletions(-)

diff --git a/src/translations.py b/src/translations.py
index e4da76c..6dde7d5 100644
--- a/src/translations.py
+++ b/src/translations.py
@@ -82,21 +82,17 @@ class Translations:
         print(f'Reading "{self.potFile}" ...')
         with open(self.potFile, 'r', encoding='utf-8') as f:
             lines = f.readlines()
-        inHeader = True
         for line in lines:
             line = line.strip()
-            if line.startswith('msgid ""'):
-                pass
-            elif inHeader:
-                if line.startswith('"POT-Creation-Date'):
-                    self.potCreation = line
-                elif line.startswith('msgid "'):
-                    inHeader = False
-            if not inHeader:
-                if line.startswith('msgid "'):
-                    self.msgList.append(self._extract_text('msgid "', line))
-                    msgCount += 1
-            self.msgList.sort()
+            if line.startswith('"POT-Creation-Date'):
+                self.potCreation = line
+                break
+
+        for message, __ in self._extract_entries(lines):
+            if message:
+                self.msgList.append(message)
+                msgCount += 1
+        self.msgList.sort()
         print(f'{msgCount} entries read.')
 
     def read_json(self):
@@ -171,23 +167,12 @@ class Translations:
             print('Not found.')
             return
 
-        inHeader = True
         msgCount = 0
-        for line in lines:
-            line = line.strip()
-            if line.startswith('msgid ""'):
-                pass
-            elif inHeader:
-                if line.startswith('msgid "'):
-                    inHeader = False
-            if not inHeader:
-                if line.startswith('msgid "'):
-                    message = self._extract_text('msgid "', line)
-                    msgCount += 1
-                elif line.startswith('msgstr "'):
-                    translation = self._extract_text('msgstr "', line)
-                    if translation:
-                        self.msgDict[message] = translation
+        for message, translation in self._extract_entries(lines):
+            if message:
+                msgCount += 1
+                if translation:
+                    self.msgDict[message] = translation
         print(f'{msgCount} entries read.')
         print(f'{len(self.msgDict)} translations total.')
 
@@ -232,6 +217,32 @@ class Translations:
         print(f'{msgCount} entries written.')
         return True
 
+    def _extract_entries(self, lines):
+        """Return a list of [message, translation] lists.
+        
+        Messages and translations may extend over several lines.
+        The message of the header is an empty string.
+        """
+        entries = []
+        index = None
+        for line in lines:
+            line = line.strip()
+            if line.startswith('msgid "'):
+                entries.append(['', ''])
+                index = 0
+                text = self._extract_text('msgid "', line)
+            elif line.startswith('msgstr "') and entries:
+                index = 1
+                text = self._extract_text('msgstr "', line)
+            elif line.startswith('"') and index is not None:
+                text = self._extract_text('"', line)
+            else:
+                index = None
+                continue
+
+            entries[-1][index] += text
+        return entries
+
     def _extract_text(self, prefix, line):
         firstPos = len(prefix)
         lastPos = len(line) - 1
-- 
2.43.0


From 98fb1e7818235ad58b2fb2c397090ad08d9b9cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:47 +0000
Subject: [PATCH 51/59] fix: do not import the descriptions of images as text

---
 src/pywriter/odt_r/odt_parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pywriter/odt_r/odt_parser.py b/src/pywriter/odt_r/odt_parser.py
index f36b161..fbe365d 100644
--- a/src/pywriter/odt_r/odt_parser.py
+++ b/src/pywriter/odt_r/odt_parser.py
@@ -29,6 +29,9 @@ class OdtParser(sax.ContentHandler):
         'text:line-break': '\n',
         }
 
+    _DESCRIPTIONS = ('svg:title', 'svg:desc')
+    # Descriptions of images are not part of the text.
+
     _NOTE_MARKS = {
         'footnote': '@fn ',
         'endnote': '@en ',
@@ -136,6 +139,10 @@ class OdtParser(sax.ContentHandler):
         if name in self._WHITESPACE:
             return
 
+        if name in self._DESCRIPTIONS:
+            self._text = []
+            return
+
         self._process_text()
         if name == 'text:p':
             if self._commentParagraphCount is None:
-- 
2.43.0


From 55eefaed77ee1023d9021404b541c1bafe22d100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:02 +0000
Subject: [PATCH 52/59] fix: read table rows that end with repeated cells

---
 src/pywriter/ods_r/ods_parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/ods_r/ods_parser.py b/src/pywriter/ods_r/ods_parser.py
index bd7f713..f55fb8a 100644
--- a/src/pywriter/ods_r/ods_parser.py
+++ b/src/pywriter/ods_r/ods_parser.py
@@ -57,6 +57,10 @@ class OdsParser:
             cells = []
             i = 0
             for cell in row.findall('table:table-cell', namespaces):
+                if i >= cellsPerRow:
+                    # The cell is excess, created by Calc.
+                    break
+
                 content = ''
                 if cell.find('text:p', namespaces) is not None:
                     paragraphs = []
@@ -75,9 +79,6 @@ class OdsParser:
                     break
 
                 i += 1
-                if i >= cellsPerRow:
-                    # The cell is excess, created by Calc.
-                    break
 
                 # Add repeated cells.
                 attribute = cell.get(f'{{{namespaces["table"]}}}number-columns-repeated')
-- 
2.43.0


From 014db8450d8af453d47c9d292c43833584694c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:19 +0000
Subject: [PATCH 53/59] fix: recognise comments that end with a slash on export

A comment such as '/*see http://example.org/*/' was exported as text,
because its last characters look like the beginning of another comment.
---
 src/pywriter/odt_w/odt_w_formatted.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index 30147ea..9dfe816 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -163,9 +163,10 @@ class OdtWFormatted(OdtWriter):
             written[:] = active
 
         newText = []
-        active, written, outer = [], [], None
+        active, written = [], []
         names = '|'.join(re.escape(tag) for tag in tags)
-        tokens = re.split(fr'(\[/?(?:{names})\]|/\*|\*/|\n)', text)
+        text = re.sub(r'/\*(.*?)\*/', fr'{self._COMMENT_START}\1{self._COMMENT_END}', text, flags=re.DOTALL)
+        tokens = re.split(fr'(\[/?(?:{names})\]|{self._COMMENT_START}|{self._COMMENT_END}|\n)', text)
         for i, token in enumerate(tokens):
             if i % 2 == 0:
                 if token:
@@ -177,19 +178,15 @@ class OdtWFormatted(OdtWriter):
             elif token == '\n':
                 close_down_to(0)
                 newText.append(token)
-            elif token == '/*' and outer is None and '*/' in tokens[i:]:
+            elif token == self._COMMENT_START:
                 reopen()
-                newText.append(self._COMMENT_START)
+                newText.append(token)
                 outer = active, written
                 active, written = [], []
-            elif token == '*/' and outer is not None:
+            elif token == self._COMMENT_END:
                 close_down_to(0)
-                newText.append(self._COMMENT_END)
-                active, written = outer
-                outer = None
-            elif token in ('/*', '*/'):
-                reopen()
                 newText.append(token)
+                active, written = outer
             elif not token.startswith('[/'):
                 active.append(token[1:-1])
             elif token[2:-1] in active:
-- 
2.43.0


From 8383c7f5b0dd567bda68b1f6f98c285b45a10c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:37 +0000
Subject: [PATCH 54/59] fix: escape language codes in the markup when exporting

Language tags with characters that XML escapes were exported as text,
and tags containing other tags made the document malformed.
---
 src/pywriter/model/novel.py           | 2 +-
 src/pywriter/odt_w/odt_w_formatted.py | 5 +++--
 src/pywriter/odt_w/odt_w_proof.py     | 5 +++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pywriter/model/novel.py b/src/pywriter/model/novel.py
index 9719f92..dde834a 100644
--- a/src/pywriter/model/novel.py
+++ b/src/pywriter/model/novel.py
@@ -9,7 +9,7 @@ import re
 from pywriter.pywriter_globals import *
 from pywriter.model.basic_element import BasicElement
 
-LANGUAGE_TAG = re.compile(r'\[lang=(.*?)\]')
+LANGUAGE_TAG = re.compile(r'\[lang=([^\[\]\n]*)\]')
 
 
 class Novel(BasicElement):
diff --git a/src/pywriter/odt_w/odt_w_formatted.py b/src/pywriter/odt_w/odt_w_formatted.py
index 9dfe816..b12c285 100644
--- a/src/pywriter/odt_w/odt_w_formatted.py
+++ b/src/pywriter/odt_w/odt_w_formatted.py
@@ -71,8 +71,9 @@ class OdtWFormatted(OdtWriter):
                 odtReplacements.extend(self._get_replacements())
                 for i, language in enumerate(self.novel.languages, 1):
                     tags.append(f'lang={language}')
-                    odtReplacements.append((f'[lang={language}]', f'<text:span text:style-name="T{i}">'))
-                    odtReplacements.append((f'[/lang={language}]', '</text:span>'))
+                    lngTag = escape(language, {"'": '&apos;', '"': '&quot;'})
+                    odtReplacements.append((f'[lang={lngTag}]', f'<text:span text:style-name="T{i}">'))
+                    odtReplacements.append((f'[/lang={lngTag}]', '</text:span>'))
 
                 #--- Process overlapping markup, and markup reaching across linebreaks.
                 text = self._nest_markup(text, tags).rstrip()
diff --git a/src/pywriter/odt_w/odt_w_proof.py b/src/pywriter/odt_w/odt_w_proof.py
index 99a8331..c626cdc 100644
--- a/src/pywriter/odt_w/odt_w_proof.py
+++ b/src/pywriter/odt_w/odt_w_proof.py
@@ -71,8 +71,9 @@ class OdtWProof(OdtWFormatted):
             i = 0
             for i, language in enumerate(self.novel.languages, 1):
                 tags.append(f'lang={language}')
-                odtReplacements.append((f'[lang={language}]', f'<text:span text:style-name="T{i}">'))
-                odtReplacements.append((f'[/lang={language}]', '</text:span>'))
+                lngTag = escape(language, {"'": '&apos;', '"': '&quot;'})
+                odtReplacements.append((f'[lang={lngTag}]', f'<text:span text:style-name="T{i}">'))
+                odtReplacements.append((f'[/lang={lngTag}]', '</text:span>'))
             odtReplacements.extend([
                 ('[i]', f'<text:span text:style-name="T{i+1}">'),
                 ('[b]', f'<text:span text:style-name="T{i+2}">'),
-- 
2.43.0


From 9ccbcfd0065a3e10e99eb0685ffafe78366dd548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:21 +0000
Subject: [PATCH 55/59] fix: pass file names to the desktop's program without a
 shell

---
 src/pywriter/file/doc_open.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pywriter/file/doc_open.py b/src/pywriter/file/doc_open.py
index 031b0d3..97a814e 100644
--- a/src/pywriter/file/doc_open.py
+++ b/src/pywriter/file/doc_open.py
@@ -5,6 +5,7 @@ For further information see https://github.com/peter88213/PyWriter
 Published under the MIT License (https://opensource.org/licenses/mit-license.php)
 """
 import os
+import subprocess
 from pywriter.pywriter_globals import *
 
 
@@ -15,11 +16,11 @@ def open_document(document):
         # Windows
     except:
         try:
-            os.system('xdg-open "%s"' % norm_path(document))
+            subprocess.call(['xdg-open', norm_path(document)])
             # Linux
         except:
             try:
-                os.system('open "%s"' % norm_path(document))
+                subprocess.call(['open', norm_path(document)])
                 # Mac
             except:
                 pass
-- 
2.43.0


From 669529de33bb03c38efdffb86b9b9ec17e892739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:37 +0000
Subject: [PATCH 56/59] fix: do not lose the project notes following one with
 custom fields

---
 src/pywriter/yw/yw7_file.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 371e1b0..1f3ddcf 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1371,9 +1371,10 @@ class Yw7File(File):
 
                 #--- Read project note custom fields.
                 for pnFields in xmlProjectnote.findall('Fields'):
-                    field = pnFields.find(fieldName)
-                    if field is not None:
-                        self.novel.projectNotes[pnId].kwVar[fieldName] = field.text
+                    for fieldName in self.PNT_KWVAR:
+                        field = pnFields.find(fieldName)
+                        if field is not None:
+                            self.novel.projectNotes[pnId].kwVar[fieldName] = field.text
         except:
             pass
 
-- 
2.43.0


From 4db14ea48c0050332221bac3628318ffb00d36d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:21 +0000
Subject: [PATCH 57/59] fix: read a project even if a scene has an unusable
 status

---
 src/pywriter/yw/yw7_file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pywriter/yw/yw7_file.py b/src/pywriter/yw/yw7_file.py
index 1f3ddcf..f09efdf 100644
--- a/src/pywriter/yw/yw7_file.py
+++ b/src/pywriter/yw/yw7_file.py
@@ -1466,7 +1466,10 @@ class Yw7File(File):
                 self.novel.scenes[scId].doNotExport = True
 
             if xmlScene.find('Status') is not None:
-                self.novel.scenes[scId].status = int(xmlScene.find('Status').text)
+                try:
+                    self.novel.scenes[scId].status = int(xmlScene.find('Status').text)
+                except:
+                    pass
 
             if xmlScene.find('Notes') is not None:
                 self.novel.scenes[scId].notes = xmlScene.find('Notes').text
-- 
2.43.0


From 172bc6784117f1db93ad11f647b0b8c35f961923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:31 +0000
Subject: [PATCH 58/59] fix: list the titles of a scene's elements even if one
 of them has none

---
 src/pywriter/file/file_export.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pywriter/file/file_export.py b/src/pywriter/file/file_export.py
index 5654273..e9c738a 100644
--- a/src/pywriter/file/file_export.py
+++ b/src/pywriter/file/file_export.py
@@ -429,7 +429,7 @@ class FileExport(File):
             # viepoint characters
             sChList = []
             for crId in self.novel.scenes[scId].characters:
-                sChList.append(self.novel.characters[crId].title)
+                sChList.append(self.novel.characters[crId].title or '')
             sceneChars = list_to_string(sChList, divider=self._DIVIDER)
             viewpointChar = sChList[0]
         except:
@@ -440,7 +440,7 @@ class FileExport(File):
         if self.novel.scenes[scId].locations is not None:
             sLcList = []
             for lcId in self.novel.scenes[scId].locations:
-                sLcList.append(self.novel.locations[lcId].title)
+                sLcList.append(self.novel.locations[lcId].title or '')
             sceneLocs = list_to_string(sLcList, divider=self._DIVIDER)
         else:
             sceneLocs = ''
@@ -449,7 +449,7 @@ class FileExport(File):
         if self.novel.scenes[scId].items is not None:
             sItList = []
             for itId in self.novel.scenes[scId].items:
-                sItList.append(self.novel.items[itId].title)
+                sItList.append(self.novel.items[itId].title or '')
             sceneItems = list_to_string(sItList, divider=self._DIVIDER)
         else:
             sceneItems = ''
-- 
2.43.0


From bc433161eb10ed294e435e1c8e873ec8333c3380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:29:16 +0000
Subject: [PATCH 59/59] fix: do not add paragraphs between the sections of a
 character to its texts

---
 src/pywriter/odt_r/odt_r_characters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pywriter/odt_r/odt_r_characters.py b/src/pywriter/odt_r/odt_r_characters.py
index 05629d1..8791e78 100644
--- a/src/pywriter/odt_r/odt_r_characters.py
+++ b/src/pywriter/odt_r/odt_r_characters.py
@@ -74,7 +74,7 @@ class OdtRCharacters(OdtReader):
                     self.novel.characters[self._crId].notes = ''.join(self._lines).rstrip()
                     self._lines = []
                     self._section = None
-            elif tag in ('p', 'blockquote'):
+            elif self._section is not None and tag in ('p', 'blockquote'):
                 self._lines.append('\n')
 
     def handle_starttag(self, tag, attrs):
-- 
2.43.0

