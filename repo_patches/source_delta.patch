From 0c22de60739e9fe67f62dc80a9de7bc924b23e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 1/9] fix: str() of a property set returns text instead of
 raising TypeError

---
 utg/words.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/words.py b/utg/words.py
index 058143c..f71d7cb 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -58,7 +58,7 @@ class Properties(object):
                                   if property.relation in self._data))
 
     def __str__(self):
-        return self.__unicode__().encode('utf-8')
+        return self.__unicode__()
 
     def __eq__(self, other):
         return (isinstance(other, Properties) and
-- 
2.43.0


From a276b3a4d3f0c866aef3d878acf1ee612fc87656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 2/9] fix: ignore whitespace around property ids listed in a
 marker

---
 utg/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/templates.py b/utg/templates.py
index 82a5c90..4184906 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -61,7 +61,7 @@ class Substitution(object):
     def parse_properties(cls, text):
         properties = []
         for slug in text.split(','):
-            slug.strip()
+            slug = slug.strip()
 
             if not slug:
                 continue
-- 
2.43.0


From 9dcf1ca7828db33445db1ef97c1744a50016bb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 3/9] fix: report a blank marker id as a wrong format instead
 of IndexError

---
 utg/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/templates.py b/utg/templates.py
index 4184906..359c8b4 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -35,7 +35,7 @@ class Substitution(object):
     def parse(cls, variable, externals):
         slugs = variable[1:-1].split('|')
 
-        if not slugs[0]:
+        if not slugs[0].strip():
             raise exceptions.WrongDependencyFormatError(dependency=variable)
 
         s = cls()
-- 
2.43.0


From 6c6a4df342afefc54c6aaa7ad282aeda8d06877b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 4/9] fix: do not double '%' inside template markers

---
 utg/templates.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/utg/templates.py b/utg/templates.py
index 359c8b4..4d2c91f 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -156,15 +156,11 @@ class Template(object):
 
     def parse(self, text, externals):
 
-        text = text.replace('%', '%%')
-
-        variables = _VARIABLE_REGEX.findall(text)
-
-        for i, variable in enumerate(variables):
+        for variable in _VARIABLE_REGEX.findall(text):
             self._substitutions.append(Substitution.parse(variable, externals=externals))
-            text = text.replace(variable, '%s', 1)
 
-        self.template = text
+        # escape literal text only, content of markers must be left as is
+        self.template = '%s'.join(literal.replace('%', '%%') for literal in _VARIABLE_REGEX.split(text))
 
     def substitute(self, externals, dictionary):
         substitutions = tuple(substitution.get_text(externals=externals, dictionary=dictionary)
-- 
2.43.0


From ee11357da10bcc08f3fc05fe968e2aeeb1ac933e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 5/9] fix: parsing a template again replaces its substitutions

---
 utg/templates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utg/templates.py b/utg/templates.py
index 4d2c91f..4c343c3 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -156,8 +156,8 @@ class Template(object):
 
     def parse(self, text, externals):
 
-        for variable in _VARIABLE_REGEX.findall(text):
-            self._substitutions.append(Substitution.parse(variable, externals=externals))
+        self._substitutions = [Substitution.parse(variable, externals=externals)
+                               for variable in _VARIABLE_REGEX.findall(text)]
 
         # escape literal text only, content of markers must be left as is
         self.template = '%s'.join(literal.replace('%', '%%') for literal in _VARIABLE_REGEX.split(text))
-- 
2.43.0


From 2ecd5d0c8c2e2629e14ceea428134bc46a2c3d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 6/9] fix: empty (unspecified) word forms do not raise
 IndexError

---
 utg/transformators.py | 6 +++---
 utg/words.py          | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/utg/transformators.py b/utg/transformators.py
index cde463a..1539c86 100644
--- a/utg/transformators.py
+++ b/utg/transformators.py
@@ -23,7 +23,7 @@ def _preposition_any(properties, slave_word, master_form):
 
     slave = slave_word.normal_form()
 
-    if slave[-1] in data.CONSONANTS:
+    if slave[-1:] in data.CONSONANTS:
         return _consonant_preposition_any(slave, properties, slave_word, master_form)
 
     return _vowels_preposition_any(slave, properties, slave_word, master_form)
@@ -43,7 +43,7 @@ def _consonant_preposition_any(slave, properties, slave_word, master_form):
 
     # 2) часто после предлогов в и с, если с этих же согласных начинается последующее стечение согласных, например: во власти, во внушении, со слезами, со словами, со страху;
     if (slave in ('в', 'с') and
-        slave == master[0] and
+        slave == master[:1] and
         master_form.starts_with_consonant_cluster):
         return properties.clone(r.PREPOSITION_FORM.ALTERNATIVE)
 
@@ -72,7 +72,7 @@ def _vowels_preposition_any(slave, properties, slave_word, master_form):
         return properties.clone(r.PREPOSITION_FORM.SPECIAL)
 
     # Если существительное начинается на гласную (кроме йотированных), то пишем ОБ: сообщить об отъезде, удариться об асфальт. Это фонетический принцип.
-    if master[0] in data.NOT_J_VOWELS:
+    if master[:1] in data.NOT_J_VOWELS:
         return properties.clone(r.PREPOSITION_FORM.ALTERNATIVE)
 
     # Прелоги участвуют в управлении В.п. или П.п. Для В.п. характерен предлог ОБ: удариться об дерево, об стену,
diff --git a/utg/words.py b/utg/words.py
index f71d7cb..02e1bca 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -220,7 +220,7 @@ class WordForm(object):
         form = word._form(properties)
 
         if properties.get(r.WORD_CASE).is_UPPER:
-            form = form[0].upper() + form[1:]
+            form = form[:1].upper() + form[1:]
 
         return form
 
@@ -231,7 +231,7 @@ class WordForm(object):
     @utils.lazy_property
     def starts_with_consonant_cluster(self):
         form = self.form
-        return (form[0] in data.CONSONANTS) and (len(form) == 1 or form[1] in data.CONSONANTS)
+        return (form[:1] in data.CONSONANTS) and (len(form) == 1 or form[1] in data.CONSONANTS)
 
 
     def __eq__(self, other):
-- 
2.43.0


From fe1ab15e4cb4c9920e39b5dac944ad2ebf7faf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 7/9] fix: equal word forms have equal hashes

---
 utg/words.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utg/words.py b/utg/words.py
index 02e1bca..238dfa8 100644
--- a/utg/words.py
+++ b/utg/words.py
@@ -242,7 +242,7 @@ class WordForm(object):
         return not self.__eq__(other)
 
     def __hash__(self):
-        return hash((self.word, self.form_properties))
+        return hash((self.word, self.properties))
 
 
 _INVERTED_WORDS_CACHES__PROPERTIES = {}
-- 
2.43.0


From c49bbb8784d4099d03510fdd2adb5fc9a742fea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 8/9] fix: agreement with integers keeps fixed properties of a
 word

---
 utg/templates.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utg/templates.py b/utg/templates.py
index 4c343c3..39ccb20 100644
--- a/utg/templates.py
+++ b/utg/templates.py
@@ -113,6 +113,9 @@ class Substitution(object):
                                                        slave_propeties=form_properties,
                                                        master_form=external)
 
+        # word's own properties are fixed (example: NUMBER in NOUN), integers must not change them
+        form_properties = form_properties.clone(base_form.word.properties)
+
         return words.WordForm.get_form(base_form.word, form_properties)
 
     def __eq__(self, other):
-- 
2.43.0


From 508bb1b35304a95beb6cdc57d66550d7894f2c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 9/9] fix: form of a preposition does not depend on
 capitalisation of the next word

---
 utg/transformators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utg/transformators.py b/utg/transformators.py
index 1539c86..202e82b 100644
--- a/utg/transformators.py
+++ b/utg/transformators.py
@@ -32,7 +32,7 @@ def _preposition_any(properties, slave_word, master_form):
 def _consonant_preposition_any(slave, properties, slave_word, master_form):
     # http://newforum.gramota.ru/viewtopic.php?f=3&t=1045
 
-    master = master_form.form
+    master = master_form.form.lower()
 
     # 1) перед односложным словом, начинающимся со стечения согласных, с беглым гласным в корне,
     #    например: во сне (ср.: в сновидениях), во рту (ср.: в ртутных испарениях), во льну (ср.: в льнотеребилках), ко мне (ср.: к мнимой величине);
@@ -62,7 +62,7 @@ def _consonant_preposition_any(slave, properties, slave_word, master_form):
 def _vowels_preposition_any(slave, properties, slave_word, master_form):
     # http://russ.hashcode.ru/questions/33493/правописание-предлог-об-и-обо
 
-    master = master_form.form
+    master = master_form.form.lower()
 
     # Прелоги ОБО используется в особых случаях,
     # а именно с некоторыми местоимениями: обо мне, обо всех, обо всём (П.п.), обо что (В.п.), но: о тебе, о других, о чём.
-- 
2.43.0

