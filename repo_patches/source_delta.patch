From 20258e7a15d30c387abe9fffa33701d610aa0154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:52 +0000
Subject: [PATCH 01/92] fix: do not read past the end of the token stream;
 accept empty scripts

Error recovery looked at the token after EOF when a statement was cut off
by the end of the script, and a script without statements was an error.
---
 src/Configuration/Script/Interpreter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Configuration/Script/Interpreter.cpp b/src/Configuration/Script/Interpreter.cpp
index efe6b18..3ef522e 100644
--- a/src/Configuration/Script/Interpreter.cpp
+++ b/src/Configuration/Script/Interpreter.cpp
@@ -37,6 +37,9 @@ bool ConfigurationScript::advance() {
  */
 bool ConfigurationScript::advanceTo(std::initializer_list<conftoken_t> args) {
 	do {
+		// There is no token after EOF
+		if (tokent() == CTKN_EOF) return false;
+
 		ConfigToken *tkn = *(this->tknstream+1);
 
 		for (auto type : args) {
@@ -191,6 +194,7 @@ ConfigBlock *ConfigurationScript::Interpret(vector<ConfigToken*>& tkns) {
 						blck = blck->GetParent();
 					else throw ConfigurationException(currline(), currcharpos(), currfile(), "Syntax error: Mismatched '{'.");
 				} break;
+				case CTKN_EOF: break;	// Empty script
 				default:
 					const string toks = ttos(tokent());
 					throw ConfigurationException(currline(), currcharpos(), currfile(), "Syntax error: Expected name or block-type, but got " + toks);
-- 
2.43.0


From d401ef8055dea60b11cadad9c36f473bf4ea1bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:52 +0000
Subject: [PATCH 02/92] fix: comments at the very end of a script

A comment that is not followed by a newline had its last character read
as script text, and a lone # at the end of the script made the lexer loop
forever.
---
 src/Configuration/Script/Lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Configuration/Script/Lexer.cpp b/src/Configuration/Script/Lexer.cpp
index ee8a881..1bc1f62 100644
--- a/src/Configuration/Script/Lexer.cpp
+++ b/src/Configuration/Script/Lexer.cpp
@@ -45,7 +45,7 @@ char ConfigurationScript::nextc() {
 				// Ignore all characters til end-of-line (or file)
 				do {
 					if (this->cnfbufferpos >= this->cnfbufferlength)
-						break;
+						return 0;
 
 					c = this->cnfbuffer[this->cnfbufferpos++];
 				} while (c != 0 && c != '\n');
-- 
2.43.0


From 958eb3211110ffd55331a6ae2373c34753d1e99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:52 +0000
Subject: [PATCH 03/92] fix: take quoted strings literally

Quoted values such as "=" or "{" were read as operators and the empty
string "" was dropped.
---
 src/Configuration/Script/Lexer.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Configuration/Script/Lexer.cpp b/src/Configuration/Script/Lexer.cpp
index 1bc1f62..d62b5a8 100644
--- a/src/Configuration/Script/Lexer.cpp
+++ b/src/Configuration/Script/Lexer.cpp
@@ -76,8 +76,10 @@ char ConfigurationScript::nextc() {
 	return 0;
 }
 ConfigToken *ConfigurationScript::gettkn(string& s, ConfigToken *prev) {
-	// First we check for simple tokens
-	if (s == "=") {
+	// First we check for simple tokens (quoted text is never a simple token)
+	if (this->instring) {
+		;
+	} else if (s == "=") {
 		return new ConfigToken(CTKN_EQUALS, s, prev, this->linecounter, this->charpos, this->file);
     } else if (s == "(") {
         return new ConfigToken(CTKN_LPAR, s, prev, this->linecounter, this->charpos, this->file);
@@ -110,7 +112,8 @@ ConfigToken *ConfigurationScript::gettkn(string& s, ConfigToken *prev) {
 	return new ConfigToken(CTKN_NAME, s, prev, this->linecounter, this->charpos, this->file);
 }
 void ConfigurationScript::pushbuffer(string& buffer, vector<ConfigToken*>& tkns) {
-	if (buffer.empty()) return;
+	// (an empty quoted string is a token, though)
+	if (buffer.empty() && !this->instring) return;
 
     ConfigToken *ct;
 	if (tkns.empty())
-- 
2.43.0


From 4f5f5fa20da88032182f4783cbb28f75f57749ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:52 +0000
Subject: [PATCH 04/92] fix: report unterminated strings and file inclusions

---
 src/Configuration/Script/Lexer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Configuration/Script/Lexer.cpp b/src/Configuration/Script/Lexer.cpp
index d62b5a8..168fb19 100644
--- a/src/Configuration/Script/Lexer.cpp
+++ b/src/Configuration/Script/Lexer.cpp
@@ -240,6 +240,11 @@ vector<ConfigToken*> ConfigurationScript::Lex(const string& str) {
 		}
 	}
 
+	if (this->instring)
+		throw ConfigurationException(this->linecounter, this->charpos, this->file, "Unterminated string.");
+	if (this->ininclude)
+		throw ConfigurationException(this->linecounter, this->charpos, this->file, "Unterminated file inclusion.");
+
 	// Push remaining buffer
     if (!buffer.empty())
         pushbuffer(buffer, tkns);
-- 
2.43.0


From cc07ff456f56953bf9ca3067a539ffa9fbad43ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:59 +0000
Subject: [PATCH 05/92] fix: re-assigning a setting does not mark it as used

---
 src/Configuration/ConfigBlock.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/Configuration/ConfigBlock.cpp b/src/Configuration/ConfigBlock.cpp
index 563c66f..79e6831 100644
--- a/src/Configuration/ConfigBlock.cpp
+++ b/src/Configuration/ConfigBlock.cpp
@@ -52,18 +52,19 @@ ConfigBlock::~ConfigBlock() {
  * values: List of values.
  */
 Setting *ConfigBlock::AddSetting(Setting *set) {
-    if (HasSetting(set->GetName())) {
-        // Replace setting
-        Setting *s = GetSetting(set->GetName());
-        s->OverwriteValues(set);
+    for (Setting *s : this->settings) {
+        if (s->HasName(set->GetName())) {
+            // Replace setting (without marking it as used)
+            s->OverwriteValues(set);
 
-        delete set;
+            delete set;
 
-        return s;
-    } else {
-        this->settings.push_back(set);
-        return set;
+            return s;
+        }
     }
+
+    this->settings.push_back(set);
+    return set;
 }
 
 /**
-- 
2.43.0


From a4ab6d5304d2939206c7e4f065329fbff608a3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:59 +0000
Subject: [PATCH 06/92] fix: merging configuration blocks must not share
 settings

---
 src/Configuration/ConfigBlock.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Configuration/ConfigBlock.cpp b/src/Configuration/ConfigBlock.cpp
index 79e6831..08a9634 100644
--- a/src/Configuration/ConfigBlock.cpp
+++ b/src/Configuration/ConfigBlock.cpp
@@ -320,7 +320,7 @@ vector<string> *ConfigBlock::Merge(ConfigBlock *cb, bool allowNew) {
 		if (this->HasSetting(set[i]->GetName()))
 			this->MergeSetting(set[i]);
 		else if (allowNew) {
-			this->AddSetting(set[i]);
+			this->AddSetting(set[i]->Copy());
 		} else {
 			if (unknown == nullptr) unknown = new vector<string>();
 			unknown->push_back(set[i]->GetName());
-- 
2.43.0


From d82b796efbf21d962d0dc9597a9ab691ae6cb192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:59 +0000
Subject: [PATCH 07/92] fix: sub-blocks refer to the block they were added to
 as their parent

---
 src/Configuration/ConfigBlock.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Configuration/ConfigBlock.cpp b/src/Configuration/ConfigBlock.cpp
index 08a9634..2158d5f 100644
--- a/src/Configuration/ConfigBlock.cpp
+++ b/src/Configuration/ConfigBlock.cpp
@@ -19,8 +19,10 @@ ConfigBlock::ConfigBlock(const ConfigBlock *cb) {
 
     // Copy sub-blocks
     vector<ConfigBlock*> sub = cb->GetAllSubBlocks();
-    for (unsigned int i = 0; i < sub.size(); i++)
+    for (unsigned int i = 0; i < sub.size(); i++) {
         subblocks.push_back(new ConfigBlock(sub.at(i)));
+        subblocks.back()->SetParent(this);
+    }
 
     // Copy settings
     vector<Setting*> set = cb->GetAllSettings();
@@ -84,6 +86,7 @@ ConfigBlock *ConfigBlock::AddSubBlock(ConfigBlock *cb) {
         return GetConfigBlock(cb->GetType(), cb->GetName());
     } else {
         this->subblocks.push_back(cb);
+        cb->SetParent(this);
         return cb;
     }
 }
-- 
2.43.0


From ed929ea86bde046f6346786035d81d3abbc3884a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:57 +0000
Subject: [PATCH 08/92] fix: a scalar must be numeric in its entirety and
 within range

---
 src/Configuration/Script/SettingScript.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Configuration/Script/SettingScript.cpp b/src/Configuration/Script/SettingScript.cpp
index 6af9591..86ac1fa 100644
--- a/src/Configuration/Script/SettingScript.cpp
+++ b/src/Configuration/Script/SettingScript.cpp
@@ -242,14 +242,17 @@ bool SettingScript::IsScalar() const {
 }
 bool SettingScript::IsScalar(unsigned int i) const {
 	const string& value = this->values.at(i);
+	size_t end = 0;
 
 	try {
-		stod(value, NULL);
+		stod(value, &end);
 	} catch (invalid_argument& e) {
 		return false;
+	} catch (out_of_range& e) {
+		return false;
 	}
 
-	return true;
+	return (end == value.length());
 }
 
 /**
@@ -260,11 +263,8 @@ bool SettingScript::IsScalar(unsigned int i) const {
 bool SettingScript::IsNumericVector() const {
 	size_t l = this->values.size();
 	for (size_t i = 0; i < l; i++) {
-		try {
-			stod(this->values[i], NULL);
-		} catch (invalid_argument& e) {
+		if (!IsScalar(i))
 			return false;
-		}
 	}
 
 	return true;
-- 
2.43.0


From bedab2ea5d72926c6d9d9d37668acb7453ea4d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:57 +0000
Subject: [PATCH 09/92] fix: range of unsigned integer settings

---
 src/Configuration/Script/SettingScript.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Configuration/Script/SettingScript.cpp b/src/Configuration/Script/SettingScript.cpp
index 86ac1fa..9f1aefc 100644
--- a/src/Configuration/Script/SettingScript.cpp
+++ b/src/Configuration/Script/SettingScript.cpp
@@ -1,4 +1,5 @@
 
+#include <limits>
 #include <string>
 #include <vector>
 #include <iostream>
@@ -183,13 +184,17 @@ bool SettingScript::IsUnsignedInteger32(unsigned int i) const {
     size_t end = 0;
 
     try {
-        stoul(value, &end);
+        if (stoull(value, &end) > numeric_limits<uint32_t>::max())
+            return false;
     } catch (invalid_argument& e) {
         return false;
     } catch (out_of_range& e) {
         return false;
     }
 
+    // 'stoull' accepts (and wraps around) negative numbers
+    if (value.find('-') != string::npos) return false;
+
     return (end == value.length());
 }
 bool SettingScript::IsInteger64() const {
@@ -226,6 +231,9 @@ bool SettingScript::IsUnsignedInteger64(unsigned int i) const {
         return false;
     }
 
+    // 'stoull' accepts (and wraps around) negative numbers
+    if (value.find('-') != string::npos) return false;
+
     return (end == value.length());
 }
 
-- 
2.43.0


From 3cb89a84c58127a374bd11e54600286c71f1f348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:34 +0000
Subject: [PATCH 10/92] fix: SDT matrices are returned as copies owned by the
 caller

---
 src/SFile/SFile_SDT.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index 2acaad7..ef6c7f5 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -141,7 +141,11 @@ double **SFile_SDT::GetDoubles(const string& name, sfilesize_t *dims) {
     for (sfilesize_t i = 1; i < dims[0]; i++)
         narr[i] = narr[i-1] + dims[1];
 
-    return it->second.value;
+    for (sfilesize_t i = 0; i < dims[0]; i++)
+        for (sfilesize_t j = 0; j < dims[1]; j++)
+            narr[i][j] = it->second.value[i][j];
+
+    return narr;
 }
 
 /**
-- 
2.43.0


From 41023d912adab56b3a85a183d069da758591cb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:34 +0000
Subject: [PATCH 11/92] fix: reading column vectors from SDT files

---
 src/SFile/SFile_SDT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index ef6c7f5..50427b7 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -217,7 +217,7 @@ double *SFile_SDT::GetDoubles1D(const string &name, sfilesize_t *dims) {
 
     if (it->second.nrows == 1)
         *dims = it->second.ncols;
-    else if (it->second.ncols != 1)
+    else if (it->second.ncols == 1)
         *dims = it->second.nrows;
     else
         throw SFileException("The requested variable is not a vector: '%s'.", name.c_str());
-- 
2.43.0


From f0aa92b734b19681eaccc1f921392654be328719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:34 +0000
Subject: [PATCH 12/92] fix: opening of SDT files which do not exist, are
 re-opened or are updated

---
 src/SFile/SFile_SDT.cpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index 50427b7..c085e70 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -47,12 +47,16 @@ using namespace std;
  */
 void SFile_SDT::Open(const string &filename, enum sfile_mode openmode) {
     mode = openmode;
+    this->filename = filename;
+
+    // Forget about the contents of any file opened previously
+    matrices.clear();
+    strings.clear();
+    sdtfile.clear();
 
     switch (mode) {
         case SFILE_MODE_READ:
             sdtfile.open(filename, ios::in);
-            Load();
-            Close();
             break;
         case SFILE_MODE_UPDATE:
             sdtfile.open(filename, ios::in | ios::out);
@@ -63,6 +67,26 @@ void SFile_SDT::Open(const string &filename, enum sfile_mode openmode) {
         default:
             throw SFileException("Unrecognized option for opening the SDT file: %d.", mode);
     }
+
+    if (!sdtfile.is_open())
+        throw SFileException("%s: Unable to open SDT file.", filename.c_str());
+
+    if (mode != SFILE_MODE_WRITE) {
+        try {
+            Load();
+        } catch (SFileException&) {
+            Close();
+            throw;
+        }
+
+        // Reset end-of-file state
+        sdtfile.clear();
+    }
+
+    if (mode == SFILE_MODE_READ)
+        Close();
+    else
+        sdtfile.seekp(0, ios::end);
 }
 
 /**
-- 
2.43.0


From 65d73cf15ce8d56940d929dac0e1bb181d7f4806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:34 +0000
Subject: [PATCH 13/92] fix: write SDT files with full double precision

---
 src/SFile/SFile_SDT.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index c085e70..9e1bc39 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -32,6 +32,7 @@
 #include <cstdlib>
 #include <iostream>
 #include <fstream>
+#include <limits>
 #include <string>
 #include <softlib/SFile.h>
 #include <softlib/SFileException.h>
@@ -87,6 +88,9 @@ void SFile_SDT::Open(const string &filename, enum sfile_mode openmode) {
         Close();
     else
         sdtfile.seekp(0, ios::end);
+
+    // Write numbers with full precision
+    sdtfile.precision(numeric_limits<double>::max_digits10);
 }
 
 /**
-- 
2.43.0


From 1b112413a1d84402646da6a00b25aacd5eb0cc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:34 +0000
Subject: [PATCH 14/92] fix: loading of non-finite numbers, empty and truncated
 matrices from SDT files

---
 src/SFile/SFile.cpp          |  2 +-
 src/SFile/SFile_SDT.cpp      |  4 ++--
 src/SFile/SFile_SDT.load.cpp | 29 ++++++++++++++++++++---------
 3 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/SFile/SFile.cpp b/src/SFile/SFile.cpp
index 669d152..781646b 100644
--- a/src/SFile/SFile.cpp
+++ b/src/SFile/SFile.cpp
@@ -176,7 +176,7 @@ template<typename Tout, typename Tin>
 Tout **SFile::__Get2DAs(const string& name, sfilesize_t *dims, Tin** (SFile::*f)(const string&, sfilesize_t*), SFile *sf) {
     Tin **a = (sf->*f)(name, dims);
 
-    Tout **b = new Tout*[dims[0]];
+    Tout **b = new Tout*[dims[0]+1];
     b[0] = new Tout[dims[0]*dims[1]];
     for (sfilesize_t i = 1; i < dims[0]; i++)
         b[i] = b[i-1] + dims[1];
diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index 9e1bc39..3a3217a 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -164,7 +164,7 @@ double **SFile_SDT::GetDoubles(const string& name, sfilesize_t *dims) {
     dims[0] = it->second.nrows;
     dims[1] = it->second.ncols;
 
-    double **narr = new double*[dims[0]];
+    double **narr = new double*[dims[0]+1];
     narr[0] = new double[dims[0]*dims[1]];
     for (sfilesize_t i = 1; i < dims[0]; i++)
         narr[i] = narr[i-1] + dims[1];
@@ -189,7 +189,7 @@ T **SFile_SDT_Get_IntArray2D(SFile_SDT *s, const string& name, sfilesize_t *dims
     double **l = s->GetDoubles(name, dims);
 
     // Allocate new array
-    T **a = new T*[dims[0]];
+    T **a = new T*[dims[0]+1];
     a[0] = new T[dims[0]*dims[1]];
     for (sfilesize_t i = 1; i < dims[0]; i++)
         a[i] = a[i-1] + dims[1];
diff --git a/src/SFile/SFile_SDT.load.cpp b/src/SFile/SFile_SDT.load.cpp
index 928dff5..567824f 100644
--- a/src/SFile/SFile_SDT.load.cpp
+++ b/src/SFile/SFile_SDT.load.cpp
@@ -2,9 +2,11 @@
  * Routines for loading/reading SDT files.
  */
 
+#include <cstdlib>
 #include <fstream>
 #include <sstream>
 #include <string>
+#include <vector>
 #include <softlib/SFileException.h>
 #include <softlib/SFile_SDT.h>
 
@@ -59,23 +61,32 @@ void SFile_SDT::Load() {
  * ncols: Number of columns of matrix.
  */
 void SFile_SDT::LoadMatrix(const string &name, const sfilesize_t nrows, const sfilesize_t ncols) {
-    slibreal_t **vals = new slibreal_t*[nrows];
-    vals[0] = new slibreal_t[nrows*ncols];
+    vector<double> data;
 
     for (sfilesize_t i = 0; i < nrows; i++) {
-        string line;
-        getline(sdtfile, line);
+        string line, token;
+        if (!getline(sdtfile, line))
+            throw SFileException("Matrix '%s' has fewer rows than declared.", name.c_str());
         stringstream ss(line);
 
-        if (i > 0)
-            vals[i] = vals[i-1] + ncols;
-
         for (sfilesize_t j = 0; j < ncols; j++) {
-            if (!(ss >> vals[i][j]))
-                throw SFileException("Invalid format of matrix '%s' at index (%u, %u).", name.c_str(), i, j);
+            // ('>>' is unable to read 'inf' and 'nan')
+            char *end = nullptr;
+            if (ss >> token)
+                data.push_back(strtod(token.c_str(), &end));
+            if (end == nullptr || *end != 0)
+                throw SFileException("Invalid format of matrix '%s' at index (%llu, %llu).", name.c_str(), (unsigned long long)i, (unsigned long long)j);
         }
     }
 
+    // Only allocate once we know that the data is there
+    slibreal_t **vals = new slibreal_t*[nrows+1];
+    vals[0] = new slibreal_t[data.size()];
+    for (sfilesize_t i = 1; i < nrows; i++)
+        vals[i] = vals[i-1] + ncols;
+    for (size_t i = 0; i < data.size(); i++)
+        vals[0][i] = data[i];
+
     // Add variable
     SFile_SDT::matrix mat;
     mat.name = name;
-- 
2.43.0


From 9ee6afe8119c84933239bed660f303061ffba497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:34 +0000
Subject: [PATCH 15/92] fix: reading one-dimensional arrays as
 multi-dimensional arrays

---
 src/SFile/SFile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SFile/SFile.cpp b/src/SFile/SFile.cpp
index 781646b..ad9cb01 100644
--- a/src/SFile/SFile.cpp
+++ b/src/SFile/SFile.cpp
@@ -100,6 +100,10 @@ void *SFile::GetMultiArray(const string& name, const sfilesize_t nndims, sfilesi
 	if (ptr == nullptr)
 		return nullptr;
 
+	// One-dimensional arrays need no conversion
+	if (ndims < 2)
+		return (void*)ptr;
+
 	// Convert to multidimensional pointer
 	sfilesize_t nel = 1;
 	for (sfilesize_t i = 0; i < ndims; i++)
-- 
2.43.0


From e239d7cd48ab0a2e0c5bc2f9ffcc74d24ecc90db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:34 +0000
Subject: [PATCH 16/92] fix: HDF5 files that could not be opened can be closed
 and destroyed

---
 src/SFile/SFile_HDF5.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index 49a994b..5877bd7 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -14,7 +14,7 @@
 using namespace H5;
 using namespace std;
 
-SFile_HDF5::SFile_HDF5() {
+SFile_HDF5::SFile_HDF5() : file(nullptr) {
     // Disable HDF5 error messages
     H5::Exception::dontPrint();
 }
@@ -56,6 +56,9 @@ void SFile_HDF5::Open(const string& filename, enum sfile_mode openmode) {
  * Close the currently open HDF5 file.
  */
 void SFile_HDF5::Close(void) {
+    if (this->file == nullptr)
+        return;
+
     this->file->flush(H5F_SCOPE_GLOBAL);
 	this->file->close();
 	delete this->file;
-- 
2.43.0


From 69635bfaf304ce8d8cb631ad1bdd47d4bbd94609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:34 +0000
Subject: [PATCH 17/92] fix: writing multi-dimensional integer arrays to MAT
 files

---
 src/SFile/SFile_MAT.HDF5.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index e682640..8621f36 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -299,19 +299,19 @@ void SFile_MAT::WriteMultiArray(const string& name, const double *arr, const sfi
 }
 void SFile_MAT::WriteMultiInt32Array(const string& name, const int32_t *arr, const sfilesize_t ndims, const sfilesize_t *dims) {
     SFile_HDF5::WriteMultiInt32Array(name, arr, ndims, dims);
-    WriteString(name, "int32");
+    WriteMATLAB_class(name, "int32");
 }
 void SFile_MAT::WriteMultiInt64Array(const string& name, const int64_t *arr, const sfilesize_t ndims, const sfilesize_t *dims) {
     SFile_HDF5::WriteMultiInt64Array(name, arr, ndims, dims);
-    WriteString(name, "int64");
+    WriteMATLAB_class(name, "int64");
 }
 void SFile_MAT::WriteMultiUInt32Array(const string& name, const uint32_t *arr, const sfilesize_t ndims, const sfilesize_t *dims) {
     SFile_HDF5::WriteMultiUInt32Array(name, arr, ndims, dims);
-    WriteString(name, "uint32");
+    WriteMATLAB_class(name, "uint32");
 }
 void SFile_MAT::WriteMultiUInt64Array(const string& name, const uint64_t *arr, const sfilesize_t ndims, const sfilesize_t *dims) {
     SFile_HDF5::WriteMultiUInt64Array(name, arr, ndims, dims);
-    WriteString(name, "uint64");
+    WriteMATLAB_class(name, "uint64");
 }
 
 void SFile_MAT::WriteString(const string& name, const string& str) {
-- 
2.43.0


From 380eaa7f6648282e704c1300afc413c1162df250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:34 +0000
Subject: [PATCH 18/92] fix: month in header of MAT files

---
 src/SFile/SFile_MAT.HDF5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index 8621f36..1d3f2d3 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -73,7 +73,7 @@ H5File *SFile_MAT::CreateMAT(const string& filename) {
 
     int
         dayw = local_tm.tm_wday,
-        imon = local_tm.tm_mon-1,
+        imon = local_tm.tm_mon,
         iday = local_tm.tm_mday,
         hour = local_tm.tm_hour,
         minute = local_tm.tm_min,
-- 
2.43.0


From 30387517799f07236bb831f78bc5fdf78f4c8c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:08 +0000
Subject: [PATCH 19/92] fix: reading HDF5 arrays with more than two dimensions
 as vectors or matrices

---
 src/SFile/SFile_HDF5.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index 5877bd7..d3fd26b 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -210,7 +210,11 @@ T **SFile_HDF5::GetArray2D(const string& name, sfilesize_t *dims, PredType p) {
 	DataSet dset = this->file->openDataSet(name);
 	DataSpace dspace = dset.getSpace();
 
-	ndims = dspace.getSimpleExtentDims(dims);
+	ndims = dspace.getSimpleExtentNdims();
+	if (ndims != 1 && ndims != 2)
+		throw SFileException("%s: The requested variable is not a one- or two-dimensional array: '%s'.", filename.c_str(), name.c_str());
+
+	dspace.getSimpleExtentDims(dims);
 	
 	if (ndims == 1) {
         dims[1] = dims[0];
@@ -273,7 +277,11 @@ T *SFile_HDF5_GetArray1D(SFile_HDF5 *sf, const string& name, sfilesize_t *dims,
 	DataSet dset = sf->__GetFile()->openDataSet(name);
 	DataSpace dspace = dset.getSpace();
 
-	ndims = dspace.getSimpleExtentDims(d);
+	ndims = dspace.getSimpleExtentNdims();
+	if (ndims != 1 && ndims != 2)
+		throw SFileException("%s: The requested variable is not a one- or two-dimensional array: '%s'.", sf->filename.c_str(), name.c_str());
+
+	dspace.getSimpleExtentDims(d);
 	
 	if (ndims == 1) {
         *dims = d[0];
-- 
2.43.0


From 593c34f94aa1f311a922d8b0cc662e3b0fa92933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:08 +0000
Subject: [PATCH 20/92] fix: reading HDF5 attributes that do not exist or are
 of another type

---
 src/SFile/SFile_HDF5.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index d3fd26b..c18e406 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -131,13 +131,15 @@ double SFile_HDF5::GetAttributeScalar(const string& datasetname, const string& n
         double s;
         DataSet dataset = file->openDataSet(datasetname);
         Attribute attr = dataset.openAttribute(name);
-        DataType type = attr.getDataType();
 
-        attr.read(type, &s);
+        if (attr.getSpace().getSimpleExtentNpoints() != 1)
+            throw SFileException("The requested attribute of dataset '%s' is not a scalar: '%s'.", datasetname.c_str(), name.c_str());
+
+        attr.read(PredType::NATIVE_DOUBLE, &s);
 
         return s;
-    } catch (FileIException &ex) {
-        throw SFileException("Unable to read attribute string '%s'. HDF5 error: %s", datasetname.c_str(), ex.getCDetailMsg());
+    } catch (H5::Exception &ex) {
+        throw SFileException("Unable to read attribute scalar '%s' of '%s'. HDF5 error: %s", name.c_str(), datasetname.c_str(), ex.getCDetailMsg());
     }
 }
 /**
@@ -155,10 +157,13 @@ string SFile_HDF5::GetAttributeString(const string& datasetname, const string& n
         Attribute attr = dataset.openAttribute(name);
         DataType type = attr.getDataType();
 
+        if (type.getClass() != H5T_STRING)
+            throw SFileException("The requested attribute of dataset '%s' is not a string: '%s'.", datasetname.c_str(), name.c_str());
+
         attr.read(type, s);
         return s;
-    } catch (FileIException &ex) {
-        throw SFileException("Unable to read attribute string '%s'. HDF5 error: %s", datasetname.c_str(), ex.getCDetailMsg());
+    } catch (H5::Exception &ex) {
+        throw SFileException("Unable to read attribute string '%s' of '%s'. HDF5 error: %s", name.c_str(), datasetname.c_str(), ex.getCDetailMsg());
     }
 }
 /**
-- 
2.43.0


From 8cc88d087fa2a3394dcefc2d609bde9d21357257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:08 +0000
Subject: [PATCH 21/92] fix: report HDF5 variables of the wrong type with an
 SFileException

---
 src/SFile/SFile_HDF5.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index c18e406..8689440 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -184,6 +184,9 @@ string SFile_HDF5::GetString(const string& name) {
     DataType type = dataset.getDataType();
     DataSpace dspace = dataset.getSpace();
 
+    if (type.getClass() != H5T_STRING)
+        throw SFileException("%s: The requested variable is not a string: '%s'.", filename.c_str(), name.c_str());
+
     dataset.read(s, type, dspace);
 
     return s;
@@ -235,7 +238,13 @@ T **SFile_HDF5::GetArray2D(const string& name, sfilesize_t *dims, PredType p) {
 		}
 	}
 
-	dset.read(data, p, dspace);
+	try {
+		dset.read(data, p, dspace);
+	} catch (H5::Exception &ex) {
+		delete [] pointers;
+		delete [] data;
+		throw SFileException("%s: Unable to read variable '%s'. HDF5 error: %s", filename.c_str(), name.c_str(), ex.getCDetailMsg());
+	}
 
 	return pointers;
 }
@@ -296,7 +305,12 @@ T *SFile_HDF5_GetArray1D(SFile_HDF5 *sf, const string& name, sfilesize_t *dims,
 		data = new T[*dims];
     }
 
-	dset.read(data, p, dspace);
+	try {
+		dset.read(data, p, dspace);
+	} catch (H5::Exception &ex) {
+		delete [] data;
+		throw SFileException("%s: Unable to read variable '%s'. HDF5 error: %s", sf->filename.c_str(), name.c_str(), ex.getCDetailMsg());
+	}
 
 	return data;
 }
@@ -338,7 +352,12 @@ double *SFile_HDF5::GetMultiArray_linear(const string& name, const sfilesize_t n
 		nel *= dims[i];
 		
 	double *data = new double[nel];
-	dset.read(data, PredType::IEEE_F64LE, dspace);
+	try {
+		dset.read(data, PredType::IEEE_F64LE, dspace);
+	} catch (H5::Exception &ex) {
+		delete [] data;
+		throw SFileException("%s: Unable to read variable '%s'. HDF5 error: %s", filename.c_str(), name.c_str(), ex.getCDetailMsg());
+	}
 
 	return data;
 }
-- 
2.43.0


From 700ba31ead058645566ab20db8c8df930f700b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:08 +0000
Subject: [PATCH 22/92] fix: tag lists in MAT files with their MATLAB class

---
 include/softlib/SFile_MAT.HDF5.h |  6 ++++++
 src/SFile/SFile_MAT.HDF5.cpp     | 28 ++++++++++++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/include/softlib/SFile_MAT.HDF5.h b/include/softlib/SFile_MAT.HDF5.h
index 5c56ec3..aece0ec 100644
--- a/include/softlib/SFile_MAT.HDF5.h
+++ b/include/softlib/SFile_MAT.HDF5.h
@@ -35,6 +35,12 @@ class SFile_MAT : public SFile_HDF5 {
         virtual void WriteUInt32Array(const std::string&, const uint32_t *const*, sfilesize_t, sfilesize_t) override;
         virtual void WriteUInt64Array(const std::string&, const uint64_t *const*, sfilesize_t, sfilesize_t) override;
 
+		virtual void WriteList(const std::string&, const double*, sfilesize_t) override;
+        virtual void WriteInt32List(const std::string&, const int32_t*, sfilesize_t) override;
+        virtual void WriteInt64List(const std::string&, const int64_t*, sfilesize_t) override;
+        virtual void WriteUInt32List(const std::string&, const uint32_t*, sfilesize_t) override;
+        virtual void WriteUInt64List(const std::string&, const uint64_t*, sfilesize_t) override;
+
         virtual void WriteMultiInt32Array(const std::string&, const int32_t*, const sfilesize_t, const sfilesize_t*) override;
         virtual void WriteMultiInt64Array(const std::string&, const int64_t*, const sfilesize_t, const sfilesize_t*) override;
         virtual void WriteMultiUInt32Array(const std::string&, const uint32_t*, const sfilesize_t, const sfilesize_t*) override;
diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index 1d3f2d3..e37096b 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -272,6 +272,34 @@ void SFile_MAT::WriteUInt64Array(const string& name, const uint64_t *const* arr,
     WriteMATLAB_class(name, "uint64");
 }
 
+/**
+ * Write a list (1-D array) to the target file.
+ *
+ * name: Name of the dataset to create
+ * list: Data to write
+ * n:    Number of elements in list
+ */
+void SFile_MAT::WriteList(const string& name, const double *list, sfilesize_t n) {
+    SFile_HDF5::WriteList(name, list, n);
+    WriteMATLAB_class(name, "double");
+}
+void SFile_MAT::WriteInt32List(const string& name, const int32_t *list, sfilesize_t n) {
+    SFile_HDF5::WriteInt32List(name, list, n);
+    WriteMATLAB_class(name, "int32");
+}
+void SFile_MAT::WriteInt64List(const string& name, const int64_t *list, sfilesize_t n) {
+    SFile_HDF5::WriteInt64List(name, list, n);
+    WriteMATLAB_class(name, "int64");
+}
+void SFile_MAT::WriteUInt32List(const string& name, const uint32_t *list, sfilesize_t n) {
+    SFile_HDF5::WriteUInt32List(name, list, n);
+    WriteMATLAB_class(name, "uint32");
+}
+void SFile_MAT::WriteUInt64List(const string& name, const uint64_t *list, sfilesize_t n) {
+    SFile_HDF5::WriteUInt64List(name, list, n);
+    WriteMATLAB_class(name, "uint64");
+}
+
 void SFile_MAT::WriteAttribute_scalar(const string& dsetname, const string& name, const double q) {
     string nname = GetAttributeName(dsetname, name);
     WriteList(nname, &q, 1);
-- 
2.43.0


From 3b18b3aa248807fdd3c47e315627e1946cb210bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:49 +0000
Subject: [PATCH 23/92] fix: creating a MAT file must not alter the defaults of
 HDF5 files

The property list was constructed from FileCreatPropList::DEFAULT, which
shares the library-wide default list, so every HDF5 file created after a
MAT file also got a 512 byte user block.
---
 src/SFile/SFile_MAT.HDF5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index e37096b..c2ca3bb 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -110,7 +110,7 @@ H5File *SFile_MAT::CreateMAT(const string& filename) {
     s[MATLAB_STRING_LENGTH] = 0;
 
     // Create initial HDF5 file
-    FileCreatPropList fcpl(FileCreatPropList::DEFAULT);
+    FileCreatPropList fcpl;
     fcpl.setUserblock(MATLAB_USER_BLOCK_SIZE);
     H5File *hf = new H5File(filename, H5F_ACC_TRUNC, fcpl);
     hf->close();
-- 
2.43.0


From c1878acb64ebbb622a2d72d583c66025c9ab9a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:41 +0000
Subject: [PATCH 24/92] fix: last character of long exception messages

Messages that did not fit in the initial buffer lost their last character,
since the size given to snprintf() did not include the terminating null.
Also release the formatting buffer.
---
 include/softlib/SOFTLibException.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/softlib/SOFTLibException.h b/include/softlib/SOFTLibException.h
index 4620bca..c75f9c7 100644
--- a/include/softlib/SOFTLibException.h
+++ b/include/softlib/SOFTLibException.h
@@ -1,6 +1,8 @@
 #ifndef _SOFTLIB_EXCEPTION_H
 #define _SOFTLIB_EXCEPTION_H
 
+#include <cstdio>
+#include <cstdlib>
 #include <exception>
 #include <string>
 
@@ -30,9 +32,11 @@ class SOFTLibException : public std::exception {
 				this->errormsg = msg;
 			} else if (n >= SOFTLIBEXCEPTION_BUFFER_SIZE) {
 				buffer = (char*)realloc(buffer, sizeof(char)*(n+1));
-				n = snprintf(buffer, n, msg.c_str(), std::forward<Args>(args) ...);
+				n = snprintf(buffer, n+1, msg.c_str(), std::forward<Args>(args) ...);
 				this->errormsg = buffer;
 			} else this->errormsg = buffer;
+
+			free(buffer);
         }
 
 		virtual const char* what() const throw();
-- 
2.43.0


From 0e436e9ac243a3bceee2415f7252dd85fd281278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:41 +0000
Subject: [PATCH 25/92] fix: break-down of times of more than a day

'days' holds a number of days, but is of type hours, so that only one hour
per day was subtracted from the remaining hours. Also set 'total_sec',
which was left uninitialized.
---
 src/General/Timer.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/General/Timer.cpp b/src/General/Timer.cpp
index 960a171..5be5985 100644
--- a/src/General/Timer.cpp
+++ b/src/General/Timer.cpp
@@ -71,11 +71,13 @@ struct Timer::time Timer::GetTimeStruct() const {
     t.tp = duration_cast<microseconds>(toc-tic+offset);
 
     t.days         = duration_cast<hours>(toc-tic+offset) / 24;
-    t.hours        = duration_cast<hours>((toc-t.days)-tic+offset);
-    t.minutes      = duration_cast<minutes>((toc-t.days-t.hours)-tic+offset);
-    t.seconds      = duration_cast<seconds>((toc-t.days-t.hours-t.minutes)-tic+offset);
-    t.milliseconds = duration_cast<milliseconds>((toc-t.days-t.hours-t.minutes-t.seconds)-tic+offset);
-    t.microseconds = duration_cast<microseconds>((toc-t.days-t.hours-t.minutes-t.seconds-t.milliseconds)-tic+offset);
+    t.hours        = duration_cast<hours>((toc-24*t.days)-tic+offset);
+    t.minutes      = duration_cast<minutes>((toc-24*t.days-t.hours)-tic+offset);
+    t.seconds      = duration_cast<seconds>((toc-24*t.days-t.hours-t.minutes)-tic+offset);
+    t.milliseconds = duration_cast<milliseconds>((toc-24*t.days-t.hours-t.minutes-t.seconds)-tic+offset);
+    t.microseconds = duration_cast<microseconds>((toc-24*t.days-t.hours-t.minutes-t.seconds-t.milliseconds)-tic+offset);
+
+    t.total_sec    = duration_cast<seconds>(toc-tic+offset);
 
     return t;
 }
-- 
2.43.0


From 44a56ea697ba7b6b8fb42e01e38476d8035e80d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:41 +0000
Subject: [PATCH 26/92] fix: stopping a timer which is already stopped

The time between the two calls was counted as running time.
---
 src/General/Timer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/General/Timer.cpp b/src/General/Timer.cpp
index 5be5985..507d7ad 100644
--- a/src/General/Timer.cpp
+++ b/src/General/Timer.cpp
@@ -108,6 +108,9 @@ void Timer::Reset() {
  * Stop the timer.
  */
 void Timer::Stop() {
+	if (this->stopped)
+		return;
+
 	toc = high_resolution_clock::now();
 	this->stopped = true;
 }
-- 
2.43.0


From d2ce155057720f0c8e5b8905aaa9a604a88ad00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:41 +0000
Subject: [PATCH 27/92] fix: progress printed twice, skipped or out of order
 with several threads

The index of the progress point was read before, and printed after, the
critical section in which it is advanced.
---
 src/General/ProgressTracker.cpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/General/ProgressTracker.cpp b/src/General/ProgressTracker.cpp
index 0e67b6e..d3325ef 100644
--- a/src/General/ProgressTracker.cpp
+++ b/src/General/ProgressTracker.cpp
@@ -76,28 +76,22 @@ void ProgressTracker::UpdateNext() {
  * Print progress (if necessary).
  */
 void ProgressTracker::PrintProgress(const long long int i) {
-    const long long int index = this->nextindex;
-    bool returnImmediately = false;
-
 #ifdef _OPENMP
     #pragma omp critical (ProgressTracker_Print)
     {
 #endif
-        if (i < this->next)
-            returnImmediately = true;
-        else
+        if (i >= this->next) {
+            const long long int index = this->nextindex;
             this->UpdateNext();
+
+            if (this->type == PROGRESS_LINES)
+                PrintProgressLines(index);
+
+            this->last->Reset();
+        }
 #ifdef _OPENMP
     }
 #endif
-
-    if (returnImmediately)
-        return;
-
-    if (this->type == PROGRESS_LINES)
-        PrintProgressLines(index);
-
-    this->last->Reset();
 }
 
 /**
-- 
2.43.0


From 2bb4dda38ff83816fae8695d864aabe5236c77e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:41 +0000
Subject: [PATCH 28/92] fix: vector operations with aliased arguments

Cross products into one of the operands and arithmetic with an element of
the vector itself used elements which had already been overwritten.
---
 include/softlib/General/Vector.tcc | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/softlib/General/Vector.tcc b/include/softlib/General/Vector.tcc
index a819e18..4d11e3a 100644
--- a/include/softlib/General/Vector.tcc
+++ b/include/softlib/General/Vector.tcc
@@ -70,8 +70,9 @@ Vector<N,T>& Vector<N,T>::operator=(const T *rhs) {
  */
 template<unsigned int N, class T>
 Vector<N,T>& Vector<N,T>::operator=(const T& rhs) {
+	const T sc = rhs;	// 'rhs' may be one of our own elements
 	for (unsigned int i = 0; i < N; i++)
-		elems[i] = rhs;
+		elems[i] = sc;
 
 	return *this;
 }
@@ -102,8 +103,9 @@ Vector<N,T>& Vector<N,T>::operator+=(const Vector<N,T>& v) {
 }
 template<unsigned int N, class T>
 Vector<N,T>& Vector<N,T>::operator+=(const T& s) {
+	const T sc = s;		// 's' may be one of our own elements
 	for (unsigned int i = 0; i < N; i++)
-		elems[i] += s;
+		elems[i] += sc;
 
 	return *this;
 }
@@ -124,8 +126,9 @@ Vector<N,T>& Vector<N,T>::operator-=(const Vector<N,T>& v) {
 }
 template<unsigned int N, class T>
 Vector<N,T>& Vector<N,T>::operator-=(const T& s) {
+	const T sc = s;		// 's' may be one of our own elements
 	for (unsigned int i = 0; i < N; i++)
-		elems[i] -= s;
+		elems[i] -= sc;
 
 	return *this;
 }
@@ -137,8 +140,9 @@ Vector<N,T>& Vector<N,T>::operator-=(const T& s) {
  */
 template<unsigned int N, class T>
 Vector<N,T>& Vector<N,T>::operator*=(const T& s) {
+	const T sc = s;		// 's' may be one of our own elements
 	for (unsigned int i = 0; i < N; i++)
-		elems[i] *= s;
+		elems[i] *= sc;
 
 	return *this;
 }
@@ -306,9 +310,15 @@ Vector<N,T> &Vector<N,T>::Cross(const Vector<N,T> &a, const Vector<N,T> &b, Vect
     if (N != 3)
         throw SOFTLibException("Cross products are only defined for 3-vectors.");
     else {
-        c[0] = a[1]*b[2] - a[2]*b[1];
-        c[1] = a[2]*b[0] - a[0]*b[2];
-        c[2] = a[0]*b[1] - a[1]*b[0];
+        // 'c' may be the same vector as 'a' or 'b'
+        const T
+            c0 = a[1]*b[2] - a[2]*b[1],
+            c1 = a[2]*b[0] - a[0]*b[2],
+            c2 = a[0]*b[1] - a[1]*b[0];
+
+        c[0] = c0;
+        c[1] = c1;
+        c[2] = c2;
 
         return c;
     }
-- 
2.43.0


From 10b3a03048f710b2d7477d28a10014c3e3b8fb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:41 +0000
Subject: [PATCH 29/92] fix: matrix assignment, addition and vector-matrix
 product did not compile

---
 include/softlib/General/Matrix.tcc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/softlib/General/Matrix.tcc b/include/softlib/General/Matrix.tcc
index 0bcff02..eaa01b7 100644
--- a/include/softlib/General/Matrix.tcc
+++ b/include/softlib/General/Matrix.tcc
@@ -124,7 +124,7 @@ unsigned int Matrix<M,N,T>::Cols() const { return N; }
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T>& Matrix<M,N,T>::operator=(const Matrix<M,N,T>& mat) {
     for (unsigned int i = 0; i < M*N; i++)
-        elems[i] = mat[i];
+        elems[i] = mat(i);
 
     return *this;
 }
@@ -137,7 +137,7 @@ Matrix<M,N,T>& Matrix<M,N,T>::operator=(const Matrix<M,N,T>& mat) {
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T>& Matrix<M,N,T>::operator+=(const Matrix<M,N,T>& mat) {
     for (unsigned int i = 0; i < M*N; i++)
-        elems[i] += mat[i];
+        elems[i] += mat(i);
 
     return *this;
 }
@@ -351,7 +351,7 @@ Vector<N,T> operator*(const Vector<M,T>& l, const Matrix<M,N,T>& r) {
     for (unsigned int i = 0; i < N; i++) {
         T sum = 0;
         for (unsigned int j = 0; j < M; j++)
-            sum += l(j,i) * r[j];
+            sum += l[j] * r(j,i);
 
         vec[i] = sum;
     }
-- 
2.43.0


From dda5446d60fdaae261a0c78527fa9c30877aa94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:41 +0000
Subject: [PATCH 30/92] fix: products of matrices and scalars, and difference
 of scalar and matrix

The products evaluated the sum, and the difference had the wrong sign.
---
 include/softlib/General/Matrix.tcc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/softlib/General/Matrix.tcc b/include/softlib/General/Matrix.tcc
index eaa01b7..e689c4a 100644
--- a/include/softlib/General/Matrix.tcc
+++ b/include/softlib/General/Matrix.tcc
@@ -281,7 +281,9 @@ Matrix<M,N,T> operator-(const Matrix<M,N,T>& lhs, const T rhs) {
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T> operator-(const T lhs, const Matrix<M,N,T>& rhs) {
     Matrix<M,N,T> C(rhs);
-    C -= lhs;
+    for (unsigned int i = 0; i < M*N; i++)
+        C(i) = lhs - C(i);
+
     return C;
 }
 
@@ -311,13 +313,13 @@ Matrix<M,K,T> operator*(const Matrix<M,N,T>& l, const Matrix<N,K,T>& r) {
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T> operator*(const Matrix<M,N,T>& l, const T r) {
     Matrix<M,N,T> C(l);
-    C += r;
+    C *= r;
     return C;
 }
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T> operator*(const T l, const Matrix<M,N,T>& r) {
     Matrix<M,N,T> C(r);
-    C += l;
+    C *= l;
     return C;
 }
 
-- 
2.43.0


From 2ef50f1d47aa1d03ce0d000b5048bc10bc843488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:41 +0000
Subject: [PATCH 31/92] fix: multiplying a matrix in place

Elements of the row were overwritten while they were still needed. The
result only has the same size as the matrix if the matrix is square.
---
 include/softlib/General/Matrix.tcc | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/include/softlib/General/Matrix.tcc b/include/softlib/General/Matrix.tcc
index e689c4a..85604c2 100644
--- a/include/softlib/General/Matrix.tcc
+++ b/include/softlib/General/Matrix.tcc
@@ -192,17 +192,9 @@ Matrix<M,N,T>& Matrix<M,N,T>::operator-=(const T s) {
  */
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T>& Matrix<M,N,T>::operator*=(const Matrix<N,M,T>& mat) {
-    for (unsigned int i = 0; i < M; i++) {
-        for (unsigned int j = 0; j < M; j++) {
-            T sum = 0;
-            for (unsigned k = 0; k < N; k++)
-                sum += elems[i*N+k] * mat(k,j);
-
-            elems[i*N+j] = sum;
-        }
-    }
+    static_assert(M == N, "The product can only be assigned to a square matrix.");
 
-    return *this;
+    return (*this = *this * mat);
 }
 
 /**
-- 
2.43.0


From 96aad4919bfc3f56cb6b871c85fd5a79d45618f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:41 +0000
Subject: [PATCH 32/92] fix: unary minus must not negate the matrix itself

---
 include/softlib/General/Matrix.tcc | 9 +++++----
 include/softlib/Matrix.h           | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/softlib/General/Matrix.tcc b/include/softlib/General/Matrix.tcc
index 85604c2..92a43b1 100644
--- a/include/softlib/General/Matrix.tcc
+++ b/include/softlib/General/Matrix.tcc
@@ -211,14 +211,15 @@ Matrix<M,N,T>& Matrix<M,N,T>::operator*=(const T s) {
 }
 
 /**
- * Negate all elements of this matrix.
+ * Returns the negative of this matrix.
  */
 template<unsigned int M, unsigned int N, class T>
-Matrix<M,N,T>& Matrix<M,N,T>::operator-() {
+Matrix<M,N,T> Matrix<M,N,T>::operator-() const {
+    Matrix<M,N,T> mat;
     for (unsigned int i = 0; i < M*N; i++)
-        elems[i] = -elems[i];
+        mat(i) = -elems[i];
 
-    return *this;
+    return mat;
 }
 
 
diff --git a/include/softlib/Matrix.h b/include/softlib/Matrix.h
index a5b346f..2da9003 100644
--- a/include/softlib/Matrix.h
+++ b/include/softlib/Matrix.h
@@ -34,7 +34,7 @@ class Matrix {
         Matrix<M,N,T>& operator-=(const T);
         Matrix<M,N,T>& operator*=(const Matrix<N,M,T>&);
         Matrix<M,N,T>& operator*=(const T);
-        Matrix<M,N,T>& operator-();
+        Matrix<M,N,T>  operator-() const;
 
         unsigned int Rows() const;
         unsigned int Cols() const;
-- 
2.43.0


From 7f2e557dda3266044361c5e5300b6af81d8ed0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:22 +0000
Subject: [PATCH 33/92] fix: normalization of values in colormaps

Values were divided by the upper limit instead of by the width of the
range, and values far above the upper limit got the first color since
the index overflowed.
---
 include/softlib/ImageGenerator/ImageColormap.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/softlib/ImageGenerator/ImageColormap.h b/include/softlib/ImageGenerator/ImageColormap.h
index 55b8e2a..25a8823 100644
--- a/include/softlib/ImageGenerator/ImageColormap.h
+++ b/include/softlib/ImageGenerator/ImageColormap.h
@@ -35,19 +35,19 @@ public:
         int l;
         slibreal_t i, f;
 
-        i = ((v-vmin)/vmax * (ncolors-1));
-        l = floor(i);
+        i = ((v-vmin)/(vmax-vmin) * (ncolors-1));
 
         scolor_t clr;
-        if (l >= ((int)ncolors)-1) {
+        if (i >= ((int)ncolors)-1) {
             clr.red   = colors[ncolors-1].red;
             clr.green = colors[ncolors-1].green;
             clr.blue  = colors[ncolors-1].blue;
-        } else if (l < 0) {
+        } else if (!(i >= 0)) {
             clr.red   = colors[0].red;
             clr.green = colors[0].green;
             clr.blue  = colors[0].blue;
         } else {
+            l = floor(i);
             f = i - (slibreal_t)l;
 
             // Linearly interpolate in colors
-- 
2.43.0


From 9b6f53bb1aa0aa091272dafd41fd644bbf23baa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:22 +0000
Subject: [PATCH 34/92] fix: generate images with the default colormap

The default value of the colormap is a null pointer, which was evaluated.
---
 src/ImageGenerator/ImageGenerator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ImageGenerator/ImageGenerator.cpp b/src/ImageGenerator/ImageGenerator.cpp
index b92871d..286f9b0 100644
--- a/src/ImageGenerator/ImageGenerator.cpp
+++ b/src/ImageGenerator/ImageGenerator.cpp
@@ -35,6 +35,9 @@ void ImageGenerator::gen(
     const unsigned int nrows, const unsigned int ncols, ImageColormap *colormap
 ) {
     ImageGenerator *igen = GetImageGenerator(type);
+    if (colormap == nullptr)
+        colormap = igen->cmap_gerimap;
+
     igen->SaveImage(name, img, nrows, ncols, colormap);
     delete igen;
 }
-- 
2.43.0


From 3bc465561620f2cf8f076651b2e9876e2028f951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:22 +0000
Subject: [PATCH 35/92] fix: report PPM files that cannot be created

---
 src/ImageGenerator/ImageGeneratorPPM.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ImageGenerator/ImageGeneratorPPM.cpp b/src/ImageGenerator/ImageGeneratorPPM.cpp
index c993506..873d75f 100644
--- a/src/ImageGenerator/ImageGeneratorPPM.cpp
+++ b/src/ImageGenerator/ImageGeneratorPPM.cpp
@@ -19,6 +19,8 @@ void ImageGeneratorPPM::SaveImage(
 ) {
     ofstream file;
     file.open(name);
+    if (!file.is_open())
+        throw SOFTLibException("Unable to create PPM file.");
 
     /********************
      * Write PPM header *
-- 
2.43.0


From 5abd80b6da74ffca39cddac4fa2979398506e5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:03 +0000
Subject: [PATCH 36/92] fix: domain crossing for parallel segments and for the
 closing segment

A path which is parallel to any of the segments of the domain was always
reported to cross the domain, no matter where it is, and the segment
connecting the last point of the domain to the first was not checked.
---
 src/MagneticField/MagneticField2D.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index 3b83b87..ffdf931 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -48,19 +48,23 @@ bool MagneticField2D::CrossesDomain(
         x01 = r - x00, y01 = z2 - y00,
         x10, y10, x11, y11, s, t, det;
 
-    unsigned int i;
-    for (i = 0; i < ndomain-1; i++) {
+    unsigned int i, j;
+    for (i = 0; i < ndomain; i++) {
+        // The last point is connected to the first
+        j = (i+1 < ndomain ? i+1 : 0);
+
         x10 = rdomain[i];
-        x11 = rdomain[i+1] - x10;
+        x11 = rdomain[j] - x10;
         y10 = zdomain[i];
-        y11 = zdomain[i+1] - y10;
+        y11 = zdomain[j] - y10;
 
         /* Check if matrix is zero */
         if (x00-x10 == 0 && y00-y10 == 0) continue;
         
-        /* Compute determinant and check if zero */
+        /* Compute determinant and check if zero
+         * (parallel lines do not cross) */
         det = x11*y01 - x01*y11;
-        if (det == 0) return true;
+        if (det == 0) continue;
 
         s = (1/det) * ((x00-x10)*y01 - (y00-y10)*x01);
         t =-(1/det) * ((y00-y10)*x11 - (x00-x10)*y11);
-- 
2.43.0


From 48422db0f5b9fbb813bd276c5c37cc0bf855ad90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:03 +0000
Subject: [PATCH 37/92] fix: z coordinate of the origin in IntersectsDomain3D()

---
 src/MagneticField/MagneticField2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index ffdf931..619feaa 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -363,7 +363,7 @@ slibreal_t  MagneticField2D::GetMagneticAxisZ() { return this->magnetic_axis[1];
  */
 bool MagneticField2D::IntersectsDomain3D(slibreal_t *xyz0, slibreal_t *xyz1, bool has_outer_wall) {
     return IntersectsDomain3D(
-        xyz0[0], xyz0[1], xyz0[1],
+        xyz0[0], xyz0[1], xyz0[2],
         xyz1[0], xyz1[1], xyz1[2],
         has_outer_wall
     );
-- 
2.43.0


From 6bff75933c3e38e3ad39f8fd0ec486b5845b5288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:03 +0000
Subject: [PATCH 38/92] fix: intersection of lines of sight with the domain in
 3D

The end points of the segments were not taken into account, so that a line
of sight was considered to hit the infinite cone (or plane) of which a
segment is just a part. The radius was added instead of subtracted for
horizontal segments, and lines of sight parallel to the surface were always
considered to hit it.
---
 src/MagneticField/MagneticField2D.cpp | 45 +++++++++++++++++----------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index 619feaa..e45d719 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -416,22 +416,22 @@ bool MagneticField2D::__IntersectsDomain3D(
         ic, term1, term2, square, sqr,
         izn, kz, mz, a, b, c, m, abc, iabc, term, q;
 
+    /* Point-like segment (e.g. the end of a closed contour) */
+    if (znp == zn && xnp == xn) return false;
+
     if (znp == zn) {
         /* Equation becomes singular => line if sight does not intersect domain */
         if (zc == zp) return false;
 
-        t1 = t2 = (zn-zp)/(zc-zp);
-        ic = 1/(xn-xnp);
+        t1 = (zn-zp)/(zc-zp);
+        ic = 1/(xnp-xn);
         term1 = xp + (xc-xp)*t1, term2 = yp + (yc-yp)*t1;
         square = term1*term1 + term2*term2;
         sqr = sqrt(square);
 
-        s1 = ic * (xn + sqr);
-        s2 = ic * (xn + sqr);
+        s1 = ic * (sqr - xn);
 
-        if ((s1 >= 0 && s1 <= 1) || (s2 >= 0 && s2 <= 1))
-            return true;
-        else return false;
+        return (t1 >= 0 && t1 <= 1 && s1 >= 0 && s1 <= 1);
     } else {
         izn = 1 / (znp-zn);
         kz = (zc-zp)*izn;
@@ -440,20 +440,31 @@ bool MagneticField2D::__IntersectsDomain3D(
         m = xn+mz*(xnp-xn);
 
         abc = a*a + b*b - c*c;
-        if (abc == 0) return true;
-        iabc = 1/abc;
+        term = c*m - a*xp - b*yp;
+        q = m*m - xp*xp - yp*yp;
 
-        term = (c*m - a*xp - b*yp) * iabc;
-        q = (m*m - xp*xp - yp*yp)*iabc;
-        square = term*term + q;
+        if (abc == 0) {
+            /* Line of sight is parallel to the surface
+             * => the equation is linear */
+            if (term == 0) return (q == 0);
 
-        if (square < 0) return false;
+            t1 = t2 = -q / (2*term);
+        } else {
+            iabc = 1/abc;
+            term *= iabc;
+            q *= iabc;
+            square = term*term + q;
 
-        sqr = sqrt(square);
-        t1 = term + sqr, t2 = term - sqr;
-        s1 = kz*t1,      s2 = kz*t2;
+            if (square < 0) return false;
+
+            sqr = sqrt(square);
+            t1 = term + sqr, t2 = term - sqr;
+        }
+
+        s1 = kz*t1 + mz, s2 = kz*t2 + mz;
 
-        if ((t1 >= 0 && t1 <= 1) || (t2 >= 0 && t2 <= 1))
+        if ((t1 >= 0 && t1 <= 1 && s1 >= 0 && s1 <= 1) ||
+            (t2 >= 0 && t2 <= 1 && s2 >= 0 && s2 <= 1))
             return true;
     }
 
-- 
2.43.0


From fa899b19627758e01dcdf469a9e31233a006cfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:03 +0000
Subject: [PATCH 39/92] fix: radial and vertical extent of the domain

Only the first two points found on the requested level were considered, so
that one side of the domain was missed whenever a point of the domain is
located on that level. The segment connecting the last point with the first
accessed elements outside of the arrays.
---
 src/MagneticField/MagneticField2D.cpp | 102 +++++++++++---------------
 1 file changed, 43 insertions(+), 59 deletions(-)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index e45d719..2dd60a8 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -3,6 +3,7 @@
  * in the MagneticField2D class.
  */
 
+#include <algorithm>
 #include <cmath>
 #include <softlib/MagneticField/MagneticField2D.h>
 #include <softlib/SOFTLibException.h>
@@ -199,6 +200,42 @@ slibreal_t MagneticField2D::FindMinRadius() {
 	return this->FindMinRadius(this->ndomain, this->rdomain, this->zdomain);
 }
 
+/**
+ * Find the smallest and largest values of 'x' for which
+ * the closed contour (x,y) is located at 'y' = 'a'.
+ *
+ * RETURNS false if the contour is never located at 'y' = 'a'.
+ */
+static bool FindExtent(
+    unsigned int n, const slibreal_t *x, const slibreal_t *y,
+    const slibreal_t a, slibreal_t &mn, slibreal_t &mx
+) {
+    bool found = false;
+
+    for (unsigned int i = 0; i < n; i++) {
+        // The last point is connected to the first
+        const unsigned int j = (i+1 < n ? i+1 : 0);
+
+        if ((y[i] > a && y[j] > a) || (y[i] < a && y[j] < a))
+            continue;
+
+        slibreal_t x1 = x[i], x2 = x[j];
+        if (y[i] != y[j])
+            x1 = x2 = x[i] + (x[j]-x[i]) * (a-y[i])/(y[j]-y[i]);
+
+        if (!found) {
+            mn = min(x1, x2);
+            mx = max(x1, x2);
+            found = true;
+        } else {
+            mn = min(mn, min(x1, x2));
+            mx = max(mx, max(x1, x2));
+        }
+    }
+
+    return found;
+}
+
 /**
  * Finds the maximum and minimum allowed particle
  * radii, given a domain. Returns only the former.
@@ -212,42 +249,13 @@ slibreal_t MagneticField2D::FindMinRadius() {
  * magnetic axis.
  */
 slibreal_t MagneticField2D::FindMaxRadius(unsigned int n, slibreal_t *r, slibreal_t *z) {
-	#define MAGFIELD2D_MAXRPOINTS 2
-	unsigned int i, ir;
-	slibreal_t za = this->GetMagneticAxisZ();
-	slibreal_t rpoints[MAGFIELD2D_MAXRPOINTS];
-
-	for (i = ir = 0; i < n-1 && ir < MAGFIELD2D_MAXRPOINTS; i++) {
-		if ((z[i] >= za && z[i+1] <= za) ||
-			(z[i] <= za && z[i+1] >= za)) {
-			if (z[i+1] == z[i])
-				rpoints[ir++] = max(r[i], r[i+1]);
-			else
-				rpoints[ir++] = r[i] + (r[i+1]-r[i]) * (za-z[i])/(z[i+1]-z[i]);
-		}
-	}
-
-	// Handle last/first point
-	if ((z[n-1] >= za && z[0] <= za) ||
-		(z[n-1] <= za && z[0] >= za)) {
-		if (z[0] == z[n-1])
-			rpoints[ir++] = max(r[i], r[i+1]);
-		else
-			rpoints[ir++] = r[i] + (r[i+1]-r[i]) * (za-z[i])/(z[i+1]-z[i]);
-	}
-
-	if (ir == 0)
+	slibreal_t rmin, rmax;
+
+	if (!FindExtent(n, r, z, this->GetMagneticAxisZ(), rmin, rmax))
 		throw SOFTLibException("Unable to find maximum allowed drop radius. Magnetic axis not within domain.");
 
-	// Find max & min radii
-	this->maxradius = rpoints[0];
-	this->minradius = rpoints[0];
-	for (i = 1; i < ir; i++) {
-		if (rpoints[i] > this->maxradius)
-			this->maxradius = rpoints[i];
-		else if (rpoints[i] < this->minradius)
-			this->minradius = rpoints[i];
-	}
+	this->maxradius = rmax;
+	this->minradius = rmin;
 
 	return this->maxradius;
 }
@@ -298,32 +306,8 @@ void MagneticField2D::FindMaxMin(
     unsigned int n, const slibreal_t *x, const slibreal_t *y,
     const slibreal_t a, slibreal_t &mn, slibreal_t &mx
 ) {
-	#define MAGFIELD2D_MAXXPOINTS 2
-	unsigned int i, ix;
-	slibreal_t xpoints[MAGFIELD2D_MAXXPOINTS];
-
-	for (i = ix = 0; i < n-1 && ix < MAGFIELD2D_MAXRPOINTS; i++) {
-		if ((y[i] >= a && y[i+1] <= a) ||
-			(y[i] <= a && y[i+1] >= a)) {
-			if (y[i+1] == y[i])
-				xpoints[ix++] = max(x[i], x[i+1]);
-			else
-				xpoints[ix++] = x[i] + (x[i+1]-x[i]) * (a-y[i])/(y[i+1]-y[i]);
-		}
-	}
-
-	if (ix == 0)
+	if (!FindExtent(n, x, y, a, mn, mx))
 		throw SOFTLibException("Unable to find maximum point. Requested point is not within the domain.");
-
-	// Find max & min radii
-	mx = xpoints[0];
-	mn = xpoints[0];
-	for (i = 1; i < ix; i++) {
-		if (xpoints[i] > mx)
-			mx = xpoints[i];
-		else if (xpoints[i] < mn)
-			mn = xpoints[i];
-	}
 }
 
 /**
-- 
2.43.0


From c75750f0b7996d337dd541f1d7ae00e75b177b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:04 +0000
Subject: [PATCH 40/92] fix: bounds of the domain when another domain is set

The bounds and radii of the previous domain were kept. Also initialize the
domain and separatrix.
---
 include/softlib/MagneticField/MagneticField2D.h | 6 +++---
 src/MagneticField/MagneticField2D.cpp           | 4 ++++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/softlib/MagneticField/MagneticField2D.h b/include/softlib/MagneticField/MagneticField2D.h
index 7aec4a1..b34ca0d 100644
--- a/include/softlib/MagneticField/MagneticField2D.h
+++ b/include/softlib/MagneticField/MagneticField2D.h
@@ -19,12 +19,12 @@ struct flux_diff {
 
 class MagneticField2D {
 	private:
-		slibreal_t *rdomain, *zdomain;
-        unsigned int ndomain;
+		slibreal_t *rdomain=nullptr, *zdomain=nullptr;
+        unsigned int ndomain=0;
 		slibreal_t maxradius=-1, minradius=-1;		// Maximum and minimum radius from which particles can be dropped
 
         slibreal_t *rseparatrix=nullptr, *zseparatrix=nullptr;
-        unsigned int nseparatrix;
+        unsigned int nseparatrix=0;
 
         bool bounds_set = false;
         struct {
diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index 2dd60a8..4451b88 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -460,6 +460,10 @@ void MagneticField2D::SetDomain(slibreal_t *rd, slibreal_t *zd, unsigned int nd)
     this->zdomain = zd;
     this->ndomain = nd;
 
+    // Forget everything calculated for the previous domain
+    this->bounds_set = false;
+    this->maxradius = this->minradius = -1;
+
 	this->FindMaxRadius();
 }
 
-- 
2.43.0


From 63568a78c4a6ee2db368e6feaa016b4dafe9fe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:34 +0000
Subject: [PATCH 41/92] fix: magnetic field at toroidal angles outside of the
 grid

The toroidal angle was calculated with the radius moved to the boundary of
the grid, so that the sine and cosine were too large or too small.
---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 0eaba73..b62ac35 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -298,7 +298,7 @@ slibreal_t *MagneticFieldNumeric2D::Eval(slibreal_t *xyz) {
 	return Eval(xyz[0], xyz[1], xyz[2]);
 }
 slibreal_t *MagneticFieldNumeric2D::Eval(slibreal_t x, slibreal_t y, slibreal_t z) {
-	slibreal_t r = hypot(x, y), br, bphi, bz, sin0, cos0;
+	slibreal_t r0 = hypot(x, y), r = r0, br, bphi, bz, sin0, cos0;
 
 	/* Make sure requested point is within domain */
 		 if (r < rmin) r = rmin;
@@ -311,7 +311,7 @@ slibreal_t *MagneticFieldNumeric2D::Eval(slibreal_t x, slibreal_t y, slibreal_t
     bphi = (slibreal_t)gsl_spline2d_eval(sBphi, r, z, ra, za);
     bz   = (slibreal_t)gsl_spline2d_eval(sBz,   r, z, ra, za);
 
-    if (r != 0) { sin0 = y/r, cos0 = x/r; }
+    if (r0 != 0) { sin0 = y/r0, cos0 = x/r0; }
     else { sin0 = 0, cos0 = 1; }
     interpval[0] = br * cos0 - bphi * sin0;
     interpval[1] = br * sin0 + bphi * cos0;
@@ -331,7 +331,7 @@ slibreal_t *MagneticFieldNumeric2D::Eval(slibreal_t x, slibreal_t y, slibreal_t
  *            to evaluate the magnetic field.
  */
 slibreal_t **MagneticFieldNumeric2D::__EvalJacobian(slibreal_t x, slibreal_t y, slibreal_t z) {
-    slibreal_t r = hypot(x, y),
+    slibreal_t r0 = hypot(x, y), r = r0,
         sin0, cos0, sin20, cos20, sc0,
         dsin0_dx, dcos0_dx, dsin0_dy, dcos0_dy,
         dBr_dr, dBr_dz, dB0_dr, dB0_dz, dBz_dr, dBz_dz,
@@ -359,13 +359,13 @@ slibreal_t **MagneticFieldNumeric2D::__EvalJacobian(slibreal_t x, slibreal_t y,
     b0 = gsl_spline2d_eval(sBphi, r, z, ra, za);
     bz = gsl_spline2d_eval(sBz,   r, z, ra, za);
 
-    if (r != 0) {
-        sin0 = y/r, cos0 = x/r;
+    if (r0 != 0) {
+        sin0 = y/r0, cos0 = x/r0;
         sin20 = sin0*sin0, cos20 = cos0*cos0;
         sc0 = sin0*cos0;
 
-        dsin0_dx = -sc0/r,  dcos0_dx = sin20/r;
-        dsin0_dy = cos20/r, dcos0_dy = -sc0/r;
+        dsin0_dx = -sc0/r0,  dcos0_dx = sin20/r0;
+        dsin0_dy = cos20/r0, dcos0_dy = -sc0/r0;
     } else {
         sin0 = sin20 = sc0 = 0;
         cos0 = cos20 = 1;
-- 
2.43.0


From 036f7c7a09404ad9a20114979a11f16cefe479fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:34 +0000
Subject: [PATCH 42/92] fix: evaluation of magnetic flux outside of the grid

The interpolation aborted the program. The flux is continued with its value
on the boundary, just as the magnetic field.
---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index b62ac35..96d1189 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -443,6 +443,13 @@ slibreal_t MagneticFieldNumeric2D::EvalFlux(
         throw SOFTLibException("Trying to evaluate magnetic flux coordinates which have not been defined.");
 
     slibreal_t r = hypot(x, y);
+
+    /* Make sure requested point is within domain */
+         if (r < rmin) r = rmin;
+    else if (r > rmax) r = rmax;
+         if (z < zmin) z = zmin;
+    else if (z > zmax) z = zmax;
+
     return (slibreal_t)gsl_spline2d_eval(sPsi, r, z, ra, za);
 }
 
@@ -468,6 +475,12 @@ struct flux_diff *MagneticFieldNumeric2D::EvalFluxDerivatives(
 
     slibreal_t r = hypot(x, y);
 
+    /* Make sure requested point is within domain */
+         if (r < rmin) r = rmin;
+    else if (r > rmax) r = rmax;
+         if (z < zmin) z = zmin;
+    else if (z > zmax) z = zmax;
+
     flux_data.psi     = (slibreal_t)gsl_spline2d_eval(sPsi, r, z, ra, za);
     flux_data.dpsi_dR = (slibreal_t)gsl_spline2d_eval_deriv_x(sPsi, r, z, ra, za);
     flux_data.dpsi_dZ = (slibreal_t)gsl_spline2d_eval_deriv_y(sPsi, r, z, ra, za);
-- 
2.43.0


From cd1ed422ad8913249c18d99ead40288748c3c8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:34 +0000
Subject: [PATCH 43/92] fix: clone magnetic fields without wall

The clone was given an empty wall, instead of the separatrix, as its domain.
---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 96d1189..3126815 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -115,7 +115,7 @@ MagneticFieldNumeric2D::MagneticFieldNumeric2D(
 MagneticFieldNumeric2D *MagneticFieldNumeric2D::Clone() {
     unsigned int i, nB;
     slibreal_t *nR, *nZ, *nBr, *nBphi, *nBz, *nPsi=nullptr,
-        *nrsep, *nzsep, *nrwall, *nzwall;
+        *nrsep=nullptr, *nzsep=nullptr, *nrwall=nullptr, *nzwall=nullptr;
 
     nB     = this->nr*this->nz;
     nR     = new slibreal_t[this->nr];
@@ -123,10 +123,15 @@ MagneticFieldNumeric2D *MagneticFieldNumeric2D::Clone() {
     nBr    = new slibreal_t[nB];
     nBphi  = new slibreal_t[nB];
     nBz    = new slibreal_t[nB];
-    nrsep  = new slibreal_t[this->nsep];
-    nzsep  = new slibreal_t[this->nsep];
-    nrwall = new slibreal_t[this->nwall];
-    nzwall = new slibreal_t[this->nwall];
+
+    if (this->nsep > 0) {
+        nrsep  = new slibreal_t[this->nsep];
+        nzsep  = new slibreal_t[this->nsep];
+    }
+    if (this->nwall > 0) {
+        nrwall = new slibreal_t[this->nwall];
+        nzwall = new slibreal_t[this->nwall];
+    }
 
     for (i = 0; i < this->nr; i++)
         nR[i] = this->R[i];
-- 
2.43.0


From dfd21948172a1a607104353e943d11f4beab236e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:34 +0000
Subject: [PATCH 44/92] fix: saving magnetic fields without magnetic flux

The flux was written from a null pointer.
---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 3126815..bba419b 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -765,7 +765,8 @@ void MagneticFieldNumeric2D::Save(const string& filename, enum sfile_type ftype)
 
 	sf->WriteList("maxis", this->magnetic_axis, 2);
 
-	sf->WriteMultiArray("Psi", this->Psi, 2, dims);
+	if (HasMagneticFlux())
+		sf->WriteMultiArray("Psi", this->Psi, 2, dims);
 
 	sf->WriteList("r", this->R, this->nr);
 	sf->WriteList("z", this->Z, this->nz);
-- 
2.43.0


From e67d951c79b38ee61f0e0d5928b7b9ddf82bec31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:34 +0000
Subject: [PATCH 45/92] fix: refuse magnetic field files with variables of the
 wrong size

The arrays were read out of bounds.
---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 46 ++++++++++++++++----
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index bba419b..3db2620 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -493,6 +493,18 @@ struct flux_diff *MagneticFieldNumeric2D::EvalFluxDerivatives(
     return &flux_data;
 }
 
+/**
+ * Make sure that the variable 'var' has one value
+ * for each grid point (and may be transposed).
+ */
+static void CheckSize(const string& filename, const string& var, const sfilesize_t *fs, const unsigned int nr, const unsigned int nz) {
+	if ((fs[0] != nz || fs[1] != nr) && (fs[0] != nr || fs[1] != nz))
+		throw SFileException(
+			"%s: Invalid dimensions of '%s': %llu x %llu. Expected %u x %u.", filename.c_str(), var.c_str(),
+			(unsigned long long)fs[0], (unsigned long long)fs[1], nz, nr
+		);
+}
+
 /**
  * Loads a 2D numeric magnetic field from the
  * file named 'filename'.
@@ -526,21 +538,27 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
 	this->nz = fs[0];
 
 	_Br = sf->GetDoubles("Br", fs);
+	CheckSize(filename, "Br", fs, this->nr, this->nz);
 	if (fs[0] != (sfilesize_t)this->nz)
 		_Br = Transpose(_Br, fs[0], fs[1]);
 	_Bphi = sf->GetDoubles("Bphi", fs);
+	CheckSize(filename, "Bphi", fs, this->nr, this->nz);
 	if (fs[0] != (sfilesize_t)this->nz)
 		_Bphi = Transpose(_Bphi, fs[0] ,fs[1]);
 	_Bz = sf->GetDoubles("Bz", fs);
+	CheckSize(filename, "Bz", fs, this->nr, this->nz);
 	if (fs[0] != (sfilesize_t)this->nz)
 		_Bz = Transpose(_Bz, fs[0], fs[1]);
 
     /* Load magnetic flux */
     try {
         _Psi = sf->GetDoubles("Psi", fs);
+    } catch (SFileException& ex) {}
+    if (_Psi != nullptr) {
+        CheckSize(filename, "Psi", fs, this->nr, this->nz);
         if (fs[0] != (sfilesize_t)this->nz)
             _Psi = Transpose(_Psi, fs[0], fs[1]);
-    } catch (SFileException& ex) {}
+    }
 
     /* Load verification vectors (if present) */
     try {
@@ -584,11 +602,20 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
 
 	try {
 		_temp = sf->GetDoubles("wall", fs);
+	} catch (SFileException& ex) {
+		_temp = nullptr;
+		this->nwall = 0;
+		this->rwall = nullptr;
+		this->zwall = nullptr;
+	}
+	if (_temp != nullptr) {
         if (fs[0] == 2) {
             _rwall = _temp[0];
             _zwall = _temp[1];
             this->nwall = fs[1];
             delete [] _temp;
+        } else if (fs[1] != 2) {
+            throw SFileException("%s: Invalid dimensions of 'wall': %llu x %llu. Expected 2 x many.", filename.c_str(), (unsigned long long)fs[0], (unsigned long long)fs[1]);
         } else {
             this->nwall = fs[0];
             _rwall = new slibreal_t[this->nwall];
@@ -602,19 +629,24 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
             delete [] _temp[0];
             delete [] _temp;
         }
-	} catch (SFileException& ex) {
-		this->nwall = 0;
-		this->rwall = nullptr;
-		this->zwall = nullptr;
 	}
 
 	try {
 		_temp = sf->GetDoubles("separatrix", fs);
+	} catch (SFileException& ex) {
+		_temp = nullptr;
+		this->nsep = 0;
+		this->rsep = nullptr;
+		this->zsep = nullptr;
+	}
+	if (_temp != nullptr) {
         if (fs[0] == 2) {
             _rsep = _temp[0];
             _zsep = _temp[1];
             this->nsep = fs[1];
             delete [] _temp;
+        } else if (fs[1] != 2) {
+            throw SFileException("%s: Invalid dimensions of 'separatrix': %llu x %llu. Expected 2 x many.", filename.c_str(), (unsigned long long)fs[0], (unsigned long long)fs[1]);
         } else {
             this->nsep = fs[0];
             _rsep = new slibreal_t[this->nsep];
@@ -628,10 +660,6 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
             delete [] _temp[0];
             delete [] _temp;
         }
-	} catch (SFileException& ex) {
-		this->nsep = 0;
-		this->rsep = nullptr;
-		this->zsep = nullptr;
 	}
 
 	sf->Close();
-- 
2.43.0


From 4fcc947df5c075ea10809d0cda65ae4d9b6603c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:34 +0000
Subject: [PATCH 46/92] fix: report invalid magnetic field grids

The program was aborted by the interpolation library.
---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 3db2620..025ea60 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -269,7 +269,15 @@ void MagneticFieldNumeric2D::InitInterpolation() {
 	/* Use SPLINTER for interpolation */
 #	error "SPLINTER support has not been implemented yet."
 #else
-	/* Use GSL for interpolation */
+	/* Use GSL for interpolation (which aborts the program on invalid grids) */
+	const unsigned int nmin = gsl_interp2d_type_min_size(gsl_interp2d_bicubic);
+	if (nr < nmin || nz < nmin)
+		throw SOFTLibException("The magnetic field grid must have at least %u points in each direction.", nmin);
+	for (unsigned int i = 1; i < nr; i++)
+		if (!(R[i] > R[i-1])) throw SOFTLibException("The radial grid of the magnetic field must be strictly increasing.");
+	for (unsigned int i = 1; i < nz; i++)
+		if (!(Z[i] > Z[i-1])) throw SOFTLibException("The vertical grid of the magnetic field must be strictly increasing.");
+
 	ra = gsl_interp_accel_alloc();
 	za = gsl_interp_accel_alloc();
 
-- 
2.43.0


From b2a5d9c7295438c3f483086f6bb44c9ca7da208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:34 +0000
Subject: [PATCH 47/92] fix: remove declarations of methods that are not
 defined

They hid the inherited methods, so that programs calling them did not link.
---
 include/softlib/MagneticField/MagneticFieldNumeric2D.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/softlib/MagneticField/MagneticFieldNumeric2D.h b/include/softlib/MagneticField/MagneticFieldNumeric2D.h
index b65a063..eddd9b9 100644
--- a/include/softlib/MagneticField/MagneticFieldNumeric2D.h
+++ b/include/softlib/MagneticField/MagneticFieldNumeric2D.h
@@ -57,15 +57,12 @@ class MagneticFieldNumeric2D : public MagneticField2D {
 		void BaseInit();
 		slibreal_t *Eval(slibreal_t*);
 		slibreal_t *Eval(slibreal_t, slibreal_t, slibreal_t) override;
-		struct magnetic_field_data& EvalDerivatives(slibreal_t*);
+		using MagneticField2D::EvalDerivatives;
 		struct magnetic_field_data& EvalDerivatives(slibreal_t, slibreal_t, slibreal_t) override;
         virtual slibreal_t EvalFlux(slibreal_t, slibreal_t, slibreal_t) override;
         virtual struct flux_diff *EvalFluxDerivatives(slibreal_t, slibreal_t, slibreal_t) override;
 		slibreal_t FindMaxRadius() override;
 		slibreal_t FindMinRadius() override;
-		std::string& GetDescription();
-		std::string& GetName();
-        slibreal_t *GetMagneticAxis();
 		void Init(
 			const std::string& name, const std::string& description,
 			slibreal_t *R, slibreal_t *Z, unsigned int nr, unsigned int nz,
-- 
2.43.0


From 73c4b8ea01cb3b8a438ff3ffdaaf428bb5ab20da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:34 +0000
Subject: [PATCH 48/92] fix: extent of numeric magnetic fields after setting
 another domain

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 025ea60..8371182 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -182,7 +182,7 @@ slibreal_t MagneticFieldNumeric2D::FindMaxRadius() {
 	if (this->nsep > 0)
 		return MagneticField2D::FindMaxRadius(nsep, rsep, zsep);
 	else
-		return MagneticField2D::FindMaxRadius(nwall, rwall, zwall);
+		return MagneticField2D::FindMaxRadius();
 }
 
 /**
@@ -198,7 +198,7 @@ slibreal_t MagneticFieldNumeric2D::FindMinRadius() {
 	if (this->nsep > 0)
 		return MagneticField2D::FindMinRadius(nsep, rsep, zsep);
 	else
-		return MagneticField2D::FindMinRadius(nwall, rwall, zwall);
+		return MagneticField2D::FindMinRadius();
 }
 
 /**
-- 
2.43.0


From 16d4cbe38d1df0350b4e49dfa37e26f3ae91d725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:54 +0000
Subject: [PATCH 49/92] fix: gradient of the analytical field strength for
 varying safety factors

---
 src/MagneticField/MagneticFieldAnalytical2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticFieldAnalytical2D.cpp b/src/MagneticField/MagneticFieldAnalytical2D.cpp
index 446b2c3..0fff682 100644
--- a/src/MagneticField/MagneticFieldAnalytical2D.cpp
+++ b/src/MagneticField/MagneticFieldAnalytical2D.cpp
@@ -159,7 +159,7 @@ struct magnetic_field_data& MagneticFieldAnalytical2D::EvalDerivatives(
 	r_qRm = r / (Rm * q);
 	sqr = sqrt(r_qRm*r_qRm + 1);
 
-	DBr = B0*Rm * iR * (r_qRm/(Rm * q)*(1 - rdq_dr)/sqr + costheta * iR * sqr);
+	DBr = B0*Rm * iR * (r_qRm/(Rm * q)*(1 - rdq_dr/q)/sqr + costheta * iR * sqr);
 	DB0 =-B0*Rm*sintheta * iR*iR * sqr;
 	ddr_rB0 = sigmaI * B0 * iR / q * (Rm*iR + 1 - rdq_dr/q);
 
-- 
2.43.0


From 38b21a888daa2f165127280638a9cda77d631d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:54 +0000
Subject: [PATCH 50/92] fix: gradient of the analytical field strength on the
 magnetic axis

The field strength varies with the major radius also on the axis.
---
 src/MagneticField/MagneticFieldAnalytical2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticFieldAnalytical2D.cpp b/src/MagneticField/MagneticFieldAnalytical2D.cpp
index 0fff682..2a6cc47 100644
--- a/src/MagneticField/MagneticFieldAnalytical2D.cpp
+++ b/src/MagneticField/MagneticFieldAnalytical2D.cpp
@@ -151,7 +151,7 @@ struct magnetic_field_data& MagneticFieldAnalytical2D::EvalDerivatives(
 		DBr, DB0, ddr_rB0, iR = 1.0 / R;
 	
 	if (r != 0) sintheta = Z / r, costheta = (Rm-R) / r;
-	else sintheta = 0, costheta = 0;
+	else sintheta = 0, costheta = 1;
 
 	sinphi = y * iR, cosphi = x * iR;
 	q = __GetSafetyFactor(r);
-- 
2.43.0


From 90819cf1d48f5a7db62b386df3cb7e42d33f5dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:54 +0000
Subject: [PATCH 51/92] fix: magnetic flux of analytical fields converted to
 numeric fields

The flux was never calculated.
---
 src/MagneticField/MagneticFieldAnalytical2D.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MagneticField/MagneticFieldAnalytical2D.cpp b/src/MagneticField/MagneticFieldAnalytical2D.cpp
index 2a6cc47..ae13af6 100644
--- a/src/MagneticField/MagneticFieldAnalytical2D.cpp
+++ b/src/MagneticField/MagneticFieldAnalytical2D.cpp
@@ -290,6 +290,7 @@ MagneticFieldNumeric2D *MagneticFieldAnalytical2D::ToNumeric2D(const unsigned in
             Br  [i + j*nr] = B[0];
             Bphi[i + j*nr] = B[1];
             Bz  [i + j*nr] = B[2];
+            Psi [i + j*nr] = EvalFlux(R[i], 0.0, Z[j]);
         }
     }
 
-- 
2.43.0


From b99fe9881e3595444ded0868ec9918803249b3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:54 +0000
Subject: [PATCH 52/92] fix: remove declarations of analytical field methods
 that are not defined

They hid the inherited methods, so that programs calling them did not link.
---
 include/softlib/MagneticField/MagneticFieldAnalytical2D.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/softlib/MagneticField/MagneticFieldAnalytical2D.h b/include/softlib/MagneticField/MagneticFieldAnalytical2D.h
index 814aef0..39c4727 100644
--- a/include/softlib/MagneticField/MagneticFieldAnalytical2D.h
+++ b/include/softlib/MagneticField/MagneticFieldAnalytical2D.h
@@ -42,9 +42,9 @@ class MagneticFieldAnalytical2D : public MagneticField2D {
         MagneticFieldAnalytical2D *Clone() override;
 
         void ConstructDomain(const slibreal_t, const slibreal_t, const slibreal_t);
-		slibreal_t *Eval(slibreal_t*);
+		using MagneticField2D::Eval;
 		slibreal_t *Eval(slibreal_t, slibreal_t, slibreal_t) override;
-		struct magnetic_field_data& EvalDerivatives(slibreal_t*);
+		using MagneticField2D::EvalDerivatives;
 		struct magnetic_field_data& EvalDerivatives(slibreal_t, slibreal_t, slibreal_t) override;
         virtual slibreal_t EvalFlux(slibreal_t, slibreal_t, slibreal_t) override;
         virtual struct flux_diff *EvalFluxDerivatives(slibreal_t, slibreal_t, slibreal_t) override;
-- 
2.43.0


From 941dbe93725361a637d575635cf8ed9c36fedf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:15 +0000
Subject: [PATCH 53/92] fix: steps of the Runge-Kutta integrator which do not
 advance time

The step size was only checked for underflow after a rejected step, so that
accepted steps could be too short to change the time.
---
 include/softlib/Integrator/RungeKutta.tcc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/softlib/Integrator/RungeKutta.tcc b/include/softlib/Integrator/RungeKutta.tcc
index dce4ea0..4c9305f 100644
--- a/include/softlib/Integrator/RungeKutta.tcc
+++ b/include/softlib/Integrator/RungeKutta.tcc
@@ -92,13 +92,14 @@ slibreal_t RungeKutta<N>::Step() {
 	T = this->LastTime();
 
 	while (true) {
+		if (fabs(h) <= fabs(T)*REAL_EPSILON)
+			throw SOFTLibException("Step-size underflow in Runge-Kutta integrator.");
+
 		yout = InnerStep(T, h, y, dydx);
 		err = EstimateError(y, yout);
 		if (this->UpdateTimestep(err)) break;
 
 		h = optimal_step;
-		if (fabs(h) <= fabs(T)*REAL_EPSILON)
-			throw SOFTLibException("Step-size underflow in Runge-Kutta integrator.");
 	}
 
 	yold = y;
-- 
2.43.0


From 9cd9cd0cddb25ec56f16973a61211a75289b5263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:15 +0000
Subject: [PATCH 54/92] fix: restarting the Runge-Kutta integrator

A restarted integrator continued with the step size of the previous solution,
so that its result depended on what had been solved before.
---
 include/softlib/Integrator/RungeKutta.tcc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/softlib/Integrator/RungeKutta.tcc b/include/softlib/Integrator/RungeKutta.tcc
index 4c9305f..802f920 100644
--- a/include/softlib/Integrator/RungeKutta.tcc
+++ b/include/softlib/Integrator/RungeKutta.tcc
@@ -74,6 +74,11 @@ void RungeKutta<N>::InitialValue(const Vector<N>& y0) {
 
     this->ntimesteps = 0;
 
+    // Forget the step size and errors of the discarded solution
+    this->optimal_step = 1.0;
+    this->errold = 1.0e-4;
+    this->previous_step_rejected = false;
+
 	StoreSolution(0.0, y0, yp0);
 }
 
-- 
2.43.0


From 8dbeea875aa3a2a9a7bbfe324db7475490983d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:15 +0000
Subject: [PATCH 55/92] fix: dense output before the first time, without steps
 and at unsorted times

---
 include/softlib/Integrator/RKDP45.tcc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/softlib/Integrator/RKDP45.tcc b/include/softlib/Integrator/RKDP45.tcc
index 6496e0c..9edbd42 100644
--- a/include/softlib/Integrator/RKDP45.tcc
+++ b/include/softlib/Integrator/RKDP45.tcc
@@ -95,9 +95,22 @@ void RKDP45<N>::OutputDense(const unsigned int nt, slibreal_t *time, slibreal_t
 	unsigned int it = 0, i, j, indx;
 	slibreal_t T, s, s1, stepsize;
 
+	if (this->ntimesteps < 2)
+		throw SOFTLibException("Dense output requires that at least one step has been taken.");
+
 	for (i = 0; i < nt; i++) {
         T = time[i];
 
+		if (T < this->time[0])
+			throw SOFTLibException(
+                "The requested tmin requires extrapolation. T = %e, tmin = %e",
+                T, this->time[0]
+            );
+
+		/* Times may be requested in any order */
+		if (T < this->time[it])
+			it = 0;
+
 		/* Find next time */
 		while (it+2 < this->ntimesteps && this->time[it+1] < T)
 			it++;
-- 
2.43.0


From dc4a05807884dcf720efce2f68f0845b6c1b992f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:15 +0000
Subject: [PATCH 56/92] fix: dense output for steps taken while dense output
 was disabled

The coefficients of such steps are not stored: uninitialised memory was returned.
---
 include/softlib/Integrator/RKDP45.tcc     |  3 +++
 include/softlib/Integrator/RungeKutta.tcc | 14 +++++++++++++-
 include/softlib/RungeKutta.h              |  4 +++-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/softlib/Integrator/RKDP45.tcc b/include/softlib/Integrator/RKDP45.tcc
index 9edbd42..f65572f 100644
--- a/include/softlib/Integrator/RKDP45.tcc
+++ b/include/softlib/Integrator/RKDP45.tcc
@@ -98,6 +98,9 @@ void RKDP45<N>::OutputDense(const unsigned int nt, slibreal_t *time, slibreal_t
 	if (this->ntimesteps < 2)
 		throw SOFTLibException("Dense output requires that at least one step has been taken.");
 
+	if (!this->HasDenseCoefficients())
+		throw SOFTLibException("Dense output was disabled while integrating.");
+
 	for (i = 0; i < nt; i++) {
         T = time[i];
 
diff --git a/include/softlib/Integrator/RungeKutta.tcc b/include/softlib/Integrator/RungeKutta.tcc
index 802f920..4e816a2 100644
--- a/include/softlib/Integrator/RungeKutta.tcc
+++ b/include/softlib/Integrator/RungeKutta.tcc
@@ -54,6 +54,14 @@ slibreal_t RungeKutta<N>::EstimateError(const Vector<N> &y1, const Vector<N> &y2
 template<unsigned int N>
 bool RungeKutta<N>::HasDenseOutput() { return store_dense_coeffs; }
 
+/**
+ * Returns true if coefficients for dense
+ * output have been stored for all steps
+ * taken since the initial value was set.
+ */
+template<unsigned int N>
+bool RungeKutta<N>::HasDenseCoefficients() { return has_dense_coeffs; }
+
 /**
  * Sets the initial value of the
  * integrator. If the integrator already
@@ -134,8 +142,12 @@ void RungeKutta<N>::StoreSolution(const slibreal_t t, const Vector<N>& y, const
 	/* Dense output coefficients should only be stored
 	 * when requested, and only after the first timestep
 	 * has been taken. */
-	if (HasDenseOutput() && this->ntimesteps > 1)
+	if (this->ntimesteps <= 1)
+		has_dense_coeffs = true;
+	else if (HasDenseOutput())
 		PrepareDense(this->timestep, yold, y, dydxold, yp);
+	else
+		has_dense_coeffs = false;
 }
 
 /**
diff --git a/include/softlib/RungeKutta.h b/include/softlib/RungeKutta.h
index aa12654..1fc8b4e 100644
--- a/include/softlib/RungeKutta.h
+++ b/include/softlib/RungeKutta.h
@@ -9,7 +9,8 @@ class RungeKutta : public Integrator<N> {
 	private:
 		slibreal_t errold;
 		bool previous_step_rejected = false,
-			 store_dense_coeffs = true;
+			 store_dense_coeffs = true,
+			 has_dense_coeffs = true;	/* Coefficients stored for all steps? */
 	protected:
 		/* Vectors in which we store the output
 		   from the 'InnerStep' routine. */
@@ -42,6 +43,7 @@ class RungeKutta : public Integrator<N> {
 		virtual void PrepareDense(const slibreal_t, const Vector<N>&, const Vector<N>&, const Vector<N>&, const Vector<N>&) = 0;
 
 		bool HasDenseOutput();
+		bool HasDenseCoefficients();
 
 		/* Setters */
 		void SetExponentAlpha(const slibreal_t);
-- 
2.43.0


From 4e034aab18573c3b795a65a85459909aea9b707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:22 +0000
Subject: [PATCH 57/92] fix: peaked integration evaluated the integrand outside
 of the limits

---
 src/Integration/PeakedIntegration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Integration/PeakedIntegration.cpp b/src/Integration/PeakedIntegration.cpp
index 1044351..58086cd 100644
--- a/src/Integration/PeakedIntegration.cpp
+++ b/src/Integration/PeakedIntegration.cpp
@@ -52,8 +52,8 @@ slibreal_t PeakedIntegration::Evaluate(
         throw SOFTLibException("PeakedIntegral: The fall-off must be non-zero.");
     
     delta = falloff;
-    fpval = f(maximum+delta);
-    fmval = f(maximum-delta);
+    fpval = (maximum+delta < b ? f(maximum+delta) : 0);
+    fmval = (maximum-delta > a ? f(maximum-delta) : 0);
 
     while (max(fpval, fmval) > cf) {
         if (fpval > fmax)
-- 
2.43.0


From 3f1fb5f2497a44d89d73d4e1f9bf1245031cb549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:22 +0000
Subject: [PATCH 58/92] fix: final interval when locating the maximum of a
 function

---
 src/Integration/PeakedIntegration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Integration/PeakedIntegration.cpp b/src/Integration/PeakedIntegration.cpp
index 58086cd..d5d444e 100644
--- a/src/Integration/PeakedIntegration.cpp
+++ b/src/Integration/PeakedIntegration.cpp
@@ -128,7 +128,7 @@ slibreal_t PeakedIntegration::FindMaximum(
         }
     }
 
-    if (yc < yd)
+    if (yc > yd)
         return 0.5*(a+d);
     else
         return 0.5*(b+c);
-- 
2.43.0


From 20f072df44b570c3f6aac7a67577174b3053b75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:48 +0000
Subject: [PATCH 59/92] fix: clones of logarithmic momentum-space distribution
 functions

---
 .../NumericMomentumSpaceDistributionFunction.cpp                 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp b/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
index 9cd74d7..b761787 100644
--- a/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
@@ -138,6 +138,7 @@ NumericMomentumSpaceDistributionFunction *NumericMomentumSpaceDistributionFuncti
 
     df->Initialize(this->np, this->nxi, this->p, this->xi, this->f, this->interptype);
     df->FlipPitchSign(this->flipPitchSign);
+    df->SetLogarithmic(this->logarithmic);
     return df;
 }
 
-- 
2.43.0


From 80fa30b4eda02743c284170c0f598486550ffbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:48 +0000
Subject: [PATCH 60/92] fix: report invalid momentum-space grids

The grids were only compared at their ends, and GSL aborts the program if
they are not strictly increasing or too small.
---
 ...NumericMomentumSpaceDistributionFunction.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp b/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
index b761787..aa7921c 100644
--- a/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
@@ -76,11 +76,18 @@ void NumericMomentumSpaceDistributionFunction::Initialize(
     this->ximin = xi[0];
     this->ximax = xi[nxi-1];
 
-    if (this->pmin > this->pmax)
-        throw SOFTLibException("The p-grid must be strictly increasing.");
-
-    if (this->ximin > this->ximax)
-        throw SOFTLibException("The xi-grid must be strictly increasing.");
+    for (unsigned int i = 1; i < np; i++)
+        if (!(p[i-1] < p[i]))
+            throw SOFTLibException("The p-grid must be strictly increasing.");
+
+    for (unsigned int i = 1; i < nxi; i++)
+        if (!(xi[i-1] < xi[i]))
+            throw SOFTLibException("The xi-grid must be strictly increasing.");
+
+    const gsl_interp2d_type *itype =
+        (interp == NumericMomentumSpaceDistributionFunction::INTERPOLATION_LINEAR ? gsl_interp2d_bilinear : gsl_interp2d_bicubic);
+    if (np < itype->min_size || nxi < itype->min_size)
+        throw SOFTLibException("Too few points in momentum-space grid for the selected interpolation method: %u x %u.", np, nxi);
 
     // Initialize interpolation
     pa = gsl_interp_accel_alloc();
-- 
2.43.0


From d93f3560e4c54db1c26793b1bbe65ed8b73cecea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:48 +0000
Subject: [PATCH 61/92] fix: cloning distribution functions whose data has been
 freed

The distribution function kept pointers to the arrays it was given, and e.g.
clones of a DREAM distribution could not be cloned after it was destroyed.
---
 .../NumericMomentumSpaceDistributionFunction.cpp            | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp b/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
index aa7921c..26840a8 100644
--- a/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
@@ -102,6 +102,12 @@ void NumericMomentumSpaceDistributionFunction::Initialize(
     }
 
     gsl_spline2d_init(fspline, this->p, this->xi, this->f, np, nxi);
+
+    // Refer to the copies made by GSL from now on, so that
+    // (clones of) this object do not depend on the given arrays
+    this->p  = fspline->xarr;
+    this->xi = fspline->yarr;
+    this->f  = fspline->zarr;
 }
 
 /**
-- 
2.43.0


From 5cf75503e35a2b6bc3b1bde4872d9700e3fb4025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:48 +0000
Subject: [PATCH 62/92] fix: radial grid of numeric distribution functions

The first radius was dropped so that the distribution was evaluated at the
wrong radii, and decreasing grids were refused or evaluated wrongly.
---
 .../NumericDistributionFunction.cpp                | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index 1b4ee2a..037e875 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -135,17 +135,18 @@ void NumericDistributionFunction::Initialize(
     bool ascnd = true;
 
     // Ensure that the radial grid is monotonically increasing or decreasing
-    if (nr > 2)
+    if (nr > 1)
         ascnd = (r[1] >= r[0]);
 
     for (unsigned int i = 1; i < nr; i++) {
         if ((ascnd && r[i-1] >= r[i]) || (!ascnd && r[i-1] <= r[i]))
             throw SOFTLibException("Numerical distribution function: The radial grid must be monotonically increasing or decreasing.");
-
-        // Copy radius to radial grid
-        this->r.push_back(r[i]);
     }
 
+    // Copy radii to radial grid (in increasing order)
+    for (unsigned int i = 0; i < nr; i++)
+        this->r.push_back(r[ascnd ? i : nr-1-i]);
+
     // Set radial grid limits
     this->rmin = r[0];
     this->rmax = r[nr-1];
@@ -157,12 +158,13 @@ void NumericDistributionFunction::Initialize(
 
     // Initialize momentum space distributions
     for (unsigned int i = 0; i < nr; i++) {
+        slibreal_t *fr = f + (ascnd ? i : nr-1-i)*(np*nxi);
         this->msdf.push_back(new NumericMomentumSpaceDistributionFunction());
 
         if (interptype == INTERPOLATION_LINEAR)
-            this->msdf[i]->Initialize(np, nxi, p, xi, f+i*(np*nxi), NumericMomentumSpaceDistributionFunction::INTERPOLATION_LINEAR);
+            this->msdf[i]->Initialize(np, nxi, p, xi, fr, NumericMomentumSpaceDistributionFunction::INTERPOLATION_LINEAR);
         else
-            this->msdf[i]->Initialize(np, nxi, p, xi, f+i*(np*nxi), NumericMomentumSpaceDistributionFunction::INTERPOLATION_CUBIC);
+            this->msdf[i]->Initialize(np, nxi, p, xi, fr, NumericMomentumSpaceDistributionFunction::INTERPOLATION_CUBIC);
     }
 }
 
-- 
2.43.0


From 4bc0bc90fa1285e114abdf0118513aea771d4f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:48 +0000
Subject: [PATCH 63/92] fix: inserting the logarithm of a distribution function
 in a new array

---
 src/DistributionFunction/NumericDistributionFunction.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index 037e875..125357e 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -197,11 +197,10 @@ void NumericDistributionFunction::InitializeLog(
 ) {
 	slibreal_t *tf;
 
-    if (alloc) {
+    if (alloc)
         tf = new slibreal_t[nr*np*nxi];
-        for (unsigned int i = 1; i < nr; i++)
-            tf[i] = tf[i-1] + np*nxi;
-    } else tf = f;
+    else
+        tf = f;
 
     for (unsigned int i = 0; i < nr*np*nxi; i++) {
 		if (f[i] <= 0)
@@ -295,7 +294,7 @@ int NumericDistributionFunction::InsertMomentumSpaceDistributionLog(
     }
 
     int idx = this->InsertMomentumSpaceDistribution(
-        np, nxi, r, p, xi, f, interptype
+        np, nxi, r, p, xi, tf, interptype
     );
 
     this->msdf[idx]->SetLogarithmic(true);
-- 
2.43.0


From 0e52eb99543350c8e15539dadc497389a51942fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:48 +0000
Subject: [PATCH 64/92] fix: inserting momentum-space distributions at the
 innermost radius

---
 src/DistributionFunction/NumericDistributionFunction.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index 125357e..6e19720 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -86,7 +86,7 @@ int NumericDistributionFunction::__FindNearestR(const slibreal_t r) {
     int il, im, iu, nnr = (int)this->r.size();
 
     if (nnr == 0) return -1;
-    else if (nnr == 1) return 0;
+    else if (nnr == 1) return (r < this->r[0] ? -1 : 0);
     ascnd = (this->r[1] > this->r[0]);
     
     il = 0;
@@ -233,10 +233,7 @@ int NumericDistributionFunction::InsertMomentumSpaceDistribution(
     slibreal_t r, NumericMomentumSpaceDistributionFunction *msdf
 ) {
     int ir = __FindNearestR(r);
-    if (ir == -1)
-        this->r.push_back(r);
-    else
-        this->r.insert(this->r.begin() + ir+1, r);
+    this->r.insert(this->r.begin() + ir+1, r);
 
     // Set radial grid limits
     if (this->r.size() == 1)
-- 
2.43.0


From ba1fe05f5921a1257a4efd6bc64c388db47c9e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:48 +0000
Subject: [PATCH 65/92] fix: radial extrapolation of numeric distribution
 functions

Beyond the last radius, the slope was calculated with the wrong distance, and
if the first radius (or, with a single radius, the requested one) is zero the
result was not a number.
---
 .../NumericDistributionFunction.cpp           | 42 +++++++------------
 1 file changed, 15 insertions(+), 27 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index 6e19720..0d9a06b 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -40,33 +40,21 @@ slibreal_t NumericDistributionFunction::Eval(
     int ir = __FindNearestR(rho);
     slibreal_t r0, r1;
 
-    if (nr == 1) {
-        r0 = rho;
-        r1 = 0;
-
-        f0 = this->msdf[0]->Eval(p, xi);
-        f1 = 0;
-    } else if (ir <= 0) {
-        r0 = 0;
-        r1 = this->r[0];
-        slibreal_t r2 = this->r[1], f2;
-
-        f1 = this->msdf[0]->Eval(p, xi);
-        f2 = this->msdf[1]->Eval(p, xi);
-        f0 = (r2*f1 - r1*f2) / (r2-r1);
-    } else if ((size_t)ir >= nr-1) {
-        r0 = this->r[nr-1];
-        r1 = r0 + (2*r0 - this->r[nr-2]);
-
-        f0 = this->msdf[nr-1]->Eval(p, xi);
-        f1 = 2*f0 - this->msdf[nr-2]->Eval(p, xi);
-    } else {
-        r0 = this->r[ir];
-        r1 = this->r[ir+1];
-
-        f0 = this->msdf[ir]->Eval(p, xi);
-        f1 = this->msdf[ir+1]->Eval(p, xi);
-    }
+    if (nr == 1)
+        return this->msdf[0]->Eval(p, xi);
+
+    // Extrapolate linearly from the outermost two
+    // distributions outside of the grid
+    if (ir < 0)
+        ir = 0;
+    else if ((size_t)ir >= nr-1)
+        ir = (int)nr-2;
+
+    r0 = this->r[ir];
+    r1 = this->r[ir+1];
+
+    f0 = this->msdf[ir]->Eval(p, xi);
+    f1 = this->msdf[ir+1]->Eval(p, xi);
 
     return ((r1-rho)*f0 + (rho-r0)*f1)/(r1-r0);
 }
-- 
2.43.0


From ec933cfb7d886619d0e36d685bc460ee16caaff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:48 +0000
Subject: [PATCH 66/92] fix: clones of numeric distribution functions which
 forbid extrapolation

---
 src/DistributionFunction/NumericDistributionFunction.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index 0d9a06b..b2e512d 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -300,6 +300,9 @@ NumericDistributionFunction *NumericDistributionFunction::MinClone() {
         );
     }
 
+    df->SetExtrapolationPermission(this->allowExtrapolation);
+    df->SetLogarithmic(this->logarithmic);
+
     return df;
 }
 
-- 
2.43.0


From 22e8c9c806e1081fa9befaacb7dcde6e3cf6eb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:48 +0000
Subject: [PATCH 67/92] fix: number of interpolation objects of CODE
 distribution functions

---
 src/DistributionFunction/CODEDistributionFunction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DistributionFunction/CODEDistributionFunction.cpp b/src/DistributionFunction/CODEDistributionFunction.cpp
index 1b6883d..8ef2dff 100644
--- a/src/DistributionFunction/CODEDistributionFunction.cpp
+++ b/src/DistributionFunction/CODEDistributionFunction.cpp
@@ -304,7 +304,7 @@ void CODEDistributionFunction::InitInterpolation(int interptype) {
     this->interptype = interptype;
 
     this->interp_accel = gsl_interp_accel_alloc();
-    this->interp = new gsl_interp*[this->np];
+    this->interp = new gsl_interp*[this->nleg];
     for (i = 0; i < this->nleg; i++) {
         switch (interptype) {
             case INTERPOLATION_LINEAR:
-- 
2.43.0


From 5d229eba7bc207b0ad86787ce3ad90fad7d65242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:48 +0000
Subject: [PATCH 68/92] fix: CODE distribution functions with a single Legendre
 mode

---
 src/DistributionFunction/CODEDistributionFunction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DistributionFunction/CODEDistributionFunction.cpp b/src/DistributionFunction/CODEDistributionFunction.cpp
index 8ef2dff..403b607 100644
--- a/src/DistributionFunction/CODEDistributionFunction.cpp
+++ b/src/DistributionFunction/CODEDistributionFunction.cpp
@@ -188,7 +188,7 @@ void CODEDistributionFunction::ComputeLegendrePolynomials(
     slibreal_t n;
 
     legmodes[0] = 1.0;
-    if (Nleg >= 1)
+    if (Nleg > 1)
         legmodes[1] = xi;
 
     for (i = 0; i < Nleg-2; i++) {
-- 
2.43.0


From 7048eb72feb85aa1ea28e0e650202fc549b028ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:48 +0000
Subject: [PATCH 69/92] fix: evaluating CODE distribution functions after
 conversion to momentum space

The conversion overwrote the Legendre polynomials without noting for which
pitch they were.
---
 src/DistributionFunction/CODEDistributionFunction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DistributionFunction/CODEDistributionFunction.cpp b/src/DistributionFunction/CODEDistributionFunction.cpp
index 403b607..36fe38a 100644
--- a/src/DistributionFunction/CODEDistributionFunction.cpp
+++ b/src/DistributionFunction/CODEDistributionFunction.cpp
@@ -380,6 +380,7 @@ NumericMomentumSpaceDistributionFunction *CODEDistributionFunction::ToMomentumSp
     ff = new slibreal_t[nnxi*np];
     for (i = 0; i < nnxi; i++) {
         ComputeLegendrePolynomials(this->legendre, txi[i], this->nleg);
+        this->xileg = txi[i];
 
         for (j = 0; j < np; j++) {
             elindex = i*np + j;
-- 
2.43.0


From 65caf8b151b686c46ba1d9cdce7ba2db4e9246dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:48 +0000
Subject: [PATCH 70/92] fix: report invalid momentum grids of CODE distribution
 functions

GSL aborts the program if the grid is too small or not strictly increasing,
and with an unknown interpolation method the object was left half-initialized.
---
 .../CODEDistributionFunction.cpp              | 47 +++++++++----------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/src/DistributionFunction/CODEDistributionFunction.cpp b/src/DistributionFunction/CODEDistributionFunction.cpp
index 36fe38a..fa4a16e 100644
--- a/src/DistributionFunction/CODEDistributionFunction.cpp
+++ b/src/DistributionFunction/CODEDistributionFunction.cpp
@@ -303,35 +303,30 @@ void CODEDistributionFunction::InitInterpolation(int interptype) {
 
     this->interptype = interptype;
 
+    for (i = 1; i < this->np; i++)
+        if (!(this->p[i-1] < this->p[i]))
+            throw SOFTLibException("CODE distribution function: The momentum grid must be strictly increasing.");
+
+    const gsl_interp_type *type;
+    switch (interptype) {
+        case INTERPOLATION_LINEAR: type = gsl_interp_linear; break;
+        case INTERPOLATION_POLYNOMIAL: type = gsl_interp_polynomial; break;
+        case INTERPOLATION_CSPLINE: type = gsl_interp_cspline; break;
+        case INTERPOLATION_CSPLINE_PERIODIC: type = gsl_interp_cspline_periodic; break;
+        case INTERPOLATION_AKIMA: type = gsl_interp_akima; break;
+        case INTERPOLATION_AKIMA_PERIODIC: type = gsl_interp_akima_periodic; break;
+        case INTERPOLATION_STEFFEN: type = gsl_interp_steffen; break;
+        default:
+            throw SOFTLibException("CODE distribution function: Unrecognized interpolation method requested: %d.", interptype);
+    }
+
+    if (this->np < gsl_interp_type_min_size(type))
+        throw SOFTLibException("CODE distribution function: Too few momentum points for the selected interpolation method: %u.", this->np);
+
     this->interp_accel = gsl_interp_accel_alloc();
     this->interp = new gsl_interp*[this->nleg];
     for (i = 0; i < this->nleg; i++) {
-        switch (interptype) {
-            case INTERPOLATION_LINEAR:
-                this->interp[i] = gsl_interp_alloc(gsl_interp_linear, this->np);
-                break;
-            case INTERPOLATION_POLYNOMIAL:
-                this->interp[i] = gsl_interp_alloc(gsl_interp_polynomial, this->np);
-                break;
-            case INTERPOLATION_CSPLINE:
-                this->interp[i] = gsl_interp_alloc(gsl_interp_cspline, this->np);
-                break;
-            case INTERPOLATION_CSPLINE_PERIODIC:
-                this->interp[i] = gsl_interp_alloc(gsl_interp_cspline_periodic, this->np);
-                break;
-            case INTERPOLATION_AKIMA:
-                this->interp[i] = gsl_interp_alloc(gsl_interp_akima, this->np);
-                break;
-            case INTERPOLATION_AKIMA_PERIODIC:
-                this->interp[i] = gsl_interp_alloc(gsl_interp_akima_periodic, this->np);
-                break;
-            case INTERPOLATION_STEFFEN:
-                this->interp[i] = gsl_interp_alloc(gsl_interp_steffen, this->np);
-                break;
-            default:
-                throw SOFTLibException("CODE distribution function: Unrecognized interpolation method requested: %d.", interptype);
-        }
-
+        this->interp[i] = gsl_interp_alloc(type, this->np);
         gsl_interp_init(this->interp[i], this->p, this->f+(i*this->np), this->np);
     }
 }
-- 
2.43.0


From cafa6ea21ecd28117f0c8793c1535b0fc5e14652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:48 +0000
Subject: [PATCH 71/92] fix: radial extrapolation of GO+CODE distribution
 functions

Inside of the first radius, the distribution was extrapolated from the outermost
radii, beyond the last radius the slope was calculated with the wrong distance,
and distributions with a single radius were read out of bounds.
---
 .../GOCODEDistributionFunction.cpp            | 38 ++++++++-----------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/DistributionFunction/GOCODEDistributionFunction.cpp b/src/DistributionFunction/GOCODEDistributionFunction.cpp
index 668dc36..a8d492d 100644
--- a/src/DistributionFunction/GOCODEDistributionFunction.cpp
+++ b/src/DistributionFunction/GOCODEDistributionFunction.cpp
@@ -43,30 +43,24 @@ slibreal_t GOCODEDistributionFunction::Eval(
             throw SOFTLibException("GOCODEDistributionFunction: No data avilable for particle position. rho = %e, (shifted by %e from r = %e).", rho, drift_shift, r);
     }
 
-    unsigned int ir = (unsigned int)__FindNearestR(rho);
+    if (this->nr == 1)
+        return this->code[0]->Eval(p, xi);
+
+    int ir = __FindNearestR(rho);
     slibreal_t r0, r1;
 
-    if (ir == 0) {
-        r0 = 0;
-        r1 = this->rho[0];
-        slibreal_t r2 = this->rho[1], f2;
-
-        f1 = this->code[0]->Eval(p, xi);
-        f2 = this->code[1]->Eval(p, xi);
-        f0 = (r2*f1 - r1*f2) / (r2-r1);
-    } else if (ir >= this->nr-1) {
-        r0 = this->rho[this->nr-1];
-        r1 = r0 + (2*r0 - this->rho[nr-2]);
-
-        f0 = this->code[this->nr-1]->Eval(p, xi);
-        f1 = 2*f0 - this->code[this->nr-2]->Eval(p, xi);
-    } else {
-        r0 = this->rho[ir];
-        r1 = this->rho[ir+1];
-
-        f0 = this->code[ir]->Eval(p, xi);
-        f1 = this->code[ir+1]->Eval(p, xi);
-    }
+    // Extrapolate linearly from the outermost two
+    // distributions outside of the grid
+    if (ir < 0)
+        ir = 0;
+    else if (ir >= (int)this->nr-1)
+        ir = (int)this->nr-2;
+
+    r0 = this->rho[ir];
+    r1 = this->rho[ir+1];
+
+    f0 = this->code[ir]->Eval(p, xi);
+    f1 = this->code[ir+1]->Eval(p, xi);
 
     return ((r1-rho)*f0 + (rho-r0)*f1)/(r1-r0);
 }
-- 
2.43.0


From 8a2ada5bc3618b1b3ed2e7fa3c17f7055b53fec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:48 +0000
Subject: [PATCH 72/92] fix: destroying GO+CODE distribution functions which
 were not loaded

---
 .../softlib/DistributionFunction/GOCODEDistributionFunction.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/softlib/DistributionFunction/GOCODEDistributionFunction.h b/include/softlib/DistributionFunction/GOCODEDistributionFunction.h
index 6535726..e7a568a 100644
--- a/include/softlib/DistributionFunction/GOCODEDistributionFunction.h
+++ b/include/softlib/DistributionFunction/GOCODEDistributionFunction.h
@@ -9,8 +9,8 @@
 class GOCODEDistributionFunction : public DistributionFunction {
     private:
         unsigned int nr;
-        slibreal_t *rho;
-        CODEDistributionFunction **code;
+        slibreal_t *rho = nullptr;
+        CODEDistributionFunction **code = nullptr;
 
         slibreal_t rhomin, rhomax;
 
-- 
2.43.0


From 4c9303dc88f2c783807d718c41942ef25d9b1576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:48 +0000
Subject: [PATCH 73/92] fix: time index of DREAM distribution functions

The index just beyond the last time step was accepted, and the number of time
steps of the distribution function was not compared with the time grid.
---
 src/DistributionFunction/DREAMDistributionFunction.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DistributionFunction/DREAMDistributionFunction.cpp b/src/DistributionFunction/DREAMDistributionFunction.cpp
index f8f7087..01aa6e3 100644
--- a/src/DistributionFunction/DREAMDistributionFunction.cpp
+++ b/src/DistributionFunction/DREAMDistributionFunction.cpp
@@ -128,10 +128,10 @@ struct DREAMDistributionFunction::dreamdf_data *DREAMDistributionFunction::__Loa
     double *tp = sf->GetDoubles1D(momgridname + "/p1", &np);
     double *tx = sf->GetDoubles1D(momgridname + "/p2", &nxi);
     
-    if (ndims != 4 || fsize[1] != nr || fsize[2] != nxi || fsize[3] != np)
+    if (ndims != 4 || fsize[0] != nt || fsize[1] != nr || fsize[2] != nxi || fsize[3] != np)
         throw SOFTLibException(
-            "DREAMDistributionFunction: Invalid dimensions of distribution functions (%llu). The grid has size %llux%llux%llu, but f has size %llux%llux%llu.",
-            ndims, nr, nxi, np, fsize[1], fsize[2], fsize[3]
+            "DREAMDistributionFunction: Invalid dimensions of distribution functions (%llu). The grid has size %llux%llux%llux%llu, but f has size %llux%llux%llux%llu.",
+            ndims, nt, nr, nxi, np, fsize[0], fsize[1], fsize[2], fsize[3]
         );
 
     sfilesize_t TIMEINDEX;
@@ -141,7 +141,7 @@ struct DREAMDistributionFunction::dreamdf_data *DREAMDistributionFunction::__Loa
         TIMEINDEX = timestep * nr*np*nxi;
 
     // Bounds check
-    if (TIMEINDEX > nt*nr*np*nxi)
+    if (TIMEINDEX >= nt*nr*np*nxi)
         throw SOFTLibException(
             "DREAMDistributionFunction: Invalid time step specified. The distribution contains %llu time steps.",
             nt
-- 
2.43.0


From 4cd1b8cfb7185fe3c8c9b215ca9661c12229302c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:48 +0000
Subject: [PATCH 74/92] fix: destroying DREAM distribution functions

For all but the first time step, the memory of the distribution function was
freed with another pointer than that which was allocated.
---
 src/DistributionFunction/DREAMDistributionFunction.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DistributionFunction/DREAMDistributionFunction.cpp b/src/DistributionFunction/DREAMDistributionFunction.cpp
index 01aa6e3..9c7547c 100644
--- a/src/DistributionFunction/DREAMDistributionFunction.cpp
+++ b/src/DistributionFunction/DREAMDistributionFunction.cpp
@@ -7,6 +7,7 @@
  * DREAM output files.
  */
 
+#include <cstring>
 #include <string>
 #include "softlib/DistributionFunction/DREAMDistributionFunction.h"
 #include "softlib/SFile.h"
@@ -153,7 +154,9 @@ struct DREAMDistributionFunction::dreamdf_data *DREAMDistributionFunction::__Loa
 
     // Convert to slibreal_t (if necessary)
     if (std::is_same<slibreal_t, double>::value) {
-        dat->f  = tf + TIMEINDEX;
+        // Move the selected time step to the beginning of the array
+        memmove(tf, tf + TIMEINDEX, sizeof(double)*nr*nxi*np);
+        dat->f  = tf;
         dat->r  = tr;
         dat->p  = tp;
         dat->xi = tx;
-- 
2.43.0


From 60ffd71cb6e608c1a585a1a4a6eeab34b469f88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:48 +0000
Subject: [PATCH 75/92] fix: loading SOFT and DREAM distribution functions
 without magnetic field

The magnetic field is an optional argument, but was dereferenced in any case.
---
 src/DistributionFunction/DREAMDistributionFunction.cpp | 3 ++-
 src/DistributionFunction/SOFTDistributionFunction.cpp  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/DistributionFunction/DREAMDistributionFunction.cpp b/src/DistributionFunction/DREAMDistributionFunction.cpp
index 9c7547c..723d98e 100644
--- a/src/DistributionFunction/DREAMDistributionFunction.cpp
+++ b/src/DistributionFunction/DREAMDistributionFunction.cpp
@@ -185,7 +185,8 @@ struct DREAMDistributionFunction::dreamdf_data *DREAMDistributionFunction::__Loa
 
     // Shift radial grid (convert from normalized minor radius -> major radius)
     for (sfilesize_t i = 0; i < nr; i++) {
-        dat->r[i] += mf->GetMagneticAxisR();
+        if (mf != nullptr)
+            dat->r[i] += mf->GetMagneticAxisR();
 
         if (i > 0 && dat->r[i] <= dat->r[i-1])
             throw SOFTLibException("DREAMDistributionFunction: The radial grid in the DREAM distribution function is not strictly increasing.");
diff --git a/src/DistributionFunction/SOFTDistributionFunction.cpp b/src/DistributionFunction/SOFTDistributionFunction.cpp
index 3622d84..c7b4af8 100644
--- a/src/DistributionFunction/SOFTDistributionFunction.cpp
+++ b/src/DistributionFunction/SOFTDistributionFunction.cpp
@@ -187,7 +187,8 @@ struct SOFTDistributionFunction::softdf_data *SOFTDistributionFunction::__Load(c
 
     // Shift radial grid (convert from normalized minor radius -> major radius)
     for (unsigned int i = 0; i < nnr; i++) {
-        dat->r[i] += mf->GetMagneticAxisR();
+        if (mf != nullptr)
+            dat->r[i] += mf->GetMagneticAxisR();
 
         if (i > 0 && dat->r[i] <= dat->r[i-1])
             throw SOFTLibException("The radial grid in the SOFT distribution function is not strictly increasing.");
-- 
2.43.0


From 162fef3a88d57875095b13adf5b35e050a6653f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:48 +0000
Subject: [PATCH 76/92] fix: short names of DREAM distribution functions

---
 src/DistributionFunction/DREAMDistributionFunction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DistributionFunction/DREAMDistributionFunction.cpp b/src/DistributionFunction/DREAMDistributionFunction.cpp
index 723d98e..3f5b02e 100644
--- a/src/DistributionFunction/DREAMDistributionFunction.cpp
+++ b/src/DistributionFunction/DREAMDistributionFunction.cpp
@@ -108,9 +108,9 @@ struct DREAMDistributionFunction::dreamdf_data *DREAMDistributionFunction::__Loa
         throw SOFTLibException("DREAMDistributionFunction: No distribution function found in file '%s'. Try to explicitly give the name of the distribution function.", filename.c_str());
 
     size_t l = dname.length();
-    if (dname.substr(l-4) == "f_re")
+    if (l >= 4 && dname.substr(l-4) == "f_re")
         momgridname = "/grid/runaway";
-    else if (dname.substr(l-5) == "f_hot")
+    else if (l >= 5 && dname.substr(l-5) == "f_hot")
         momgridname = "/grid/hottail";
     else
         throw SOFTLibException("DREAMDistributionFunction: Unrecognized type of distribution function specified: '%s'. Unable to determine which momentum grid to use.", dname.c_str());
-- 
2.43.0


From 63c25cf072ecf7ef9d2f01dd45aa4cc7080cde86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:48 +0000
Subject: [PATCH 77/92] fix: deallocation when loading SOFT distribution
 functions

---
 src/DistributionFunction/SOFTDistributionFunction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DistributionFunction/SOFTDistributionFunction.cpp b/src/DistributionFunction/SOFTDistributionFunction.cpp
index c7b4af8..0c75b30 100644
--- a/src/DistributionFunction/SOFTDistributionFunction.cpp
+++ b/src/DistributionFunction/SOFTDistributionFunction.cpp
@@ -228,7 +228,7 @@ void SOFTDistributionFunction::__LoadRadius(
     // Distribution function
     double **ttf = sf->GetDoubles(groupname+"f", fsize);
 	double *tf = ttf[0];
-    delete ttf;
+    delete [] ttf;
 
     if (fsize[0] != nnxi || fsize[1] != nnp)
         throw SOFTLibException("Invalid size of SOFT distribution function '%sf' vector: %llu x %llu. Must have size nxi-by-np (%llu x %llu).", groupname.c_str(), fsize[0], fsize[1], nnxi, nnp);
-- 
2.43.0


From 8455fc7a56d14f7c1078ce9dcdc2edf8a1c0aa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:46 +0000
Subject: [PATCH 78/92] fix: deleting radial profiles

---
 include/softlib/DistributionFunction/RadialProfile.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/softlib/DistributionFunction/RadialProfile.h b/include/softlib/DistributionFunction/RadialProfile.h
index 77c6784..ba380c1 100644
--- a/include/softlib/DistributionFunction/RadialProfile.h
+++ b/include/softlib/DistributionFunction/RadialProfile.h
@@ -3,6 +3,7 @@
 
 class RadialProfile {
     public:
+        virtual ~RadialProfile() {}
         virtual slibreal_t Eval(const slibreal_t, const slibreal_t) = 0;
         virtual RadialProfile *MinClone() = 0;
 };
-- 
2.43.0


From 689e9c44c875a806d6b3a341766776414baa94c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:34 +0000
Subject: [PATCH 79/92] fix: closing DREAM and GO+CODE files

---
 src/DistributionFunction/DREAMDistributionFunction.cpp  | 2 ++
 src/DistributionFunction/GOCODEDistributionFunction.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/DistributionFunction/DREAMDistributionFunction.cpp b/src/DistributionFunction/DREAMDistributionFunction.cpp
index 3f5b02e..ae46e9b 100644
--- a/src/DistributionFunction/DREAMDistributionFunction.cpp
+++ b/src/DistributionFunction/DREAMDistributionFunction.cpp
@@ -181,6 +181,8 @@ struct DREAMDistributionFunction::dreamdf_data *DREAMDistributionFunction::__Loa
         delete [] tf;
     }
 
+    sf->Close();
+
     delete [] tt;
 
     // Shift radial grid (convert from normalized minor radius -> major radius)
diff --git a/src/DistributionFunction/GOCODEDistributionFunction.cpp b/src/DistributionFunction/GOCODEDistributionFunction.cpp
index a8d492d..1cfd53e 100644
--- a/src/DistributionFunction/GOCODEDistributionFunction.cpp
+++ b/src/DistributionFunction/GOCODEDistributionFunction.cpp
@@ -193,6 +193,8 @@ void GOCODEDistributionFunction::Load(const string& fname, MagneticField2D *mf,
 
         this->code[i] = new CODEDistributionFunction(sf, 0, interptype, groupname);
     }
+
+    sf->Close();
 }
 
 /**
-- 
2.43.0


From aa5d33ca96c354620028ad33b6cc57e8b7d29717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:45 +0000
Subject: [PATCH 80/92] fix: report invalid flux and angle grids of LUKE
 equilibria

---
 src/MagneticField/MagneticFieldLUKE.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/MagneticField/MagneticFieldLUKE.cpp b/src/MagneticField/MagneticFieldLUKE.cpp
index cfc1963..c652797 100644
--- a/src/MagneticField/MagneticFieldLUKE.cpp
+++ b/src/MagneticField/MagneticFieldLUKE.cpp
@@ -187,6 +187,14 @@ void MagneticFieldLUKE::Load(const string& name, enum sfile_type type, const str
 			name.c_str(), fs[0], fs[1], ntsig, npsig
 		);
 	
+	// GSL aborts the program on invalid grids
+	if (npsig < 2 || ntsig < 2)
+		throw SFileException("%s: The flux and poloidal angle grids must have at least two points.", name.c_str());
+	for (sfilesize_t i = 1; i < npsig; i++)
+		if (!(_psig[i] > _psig[i-1])) throw SFileException("%s: The poloidal flux grid must be strictly monotonic.", name.c_str());
+	for (sfilesize_t i = 1; i < ntsig; i++)
+		if (!(_tsig[i] > _tsig[i-1])) throw SFileException("%s: The poloidal angle grid must be strictly increasing.", name.c_str());
+
 	// Setup interpolation
 	// Bicubic interpolation seems to become unstable for these types of
 	// magnetic fields, and so we are required to use bilinear interpolation instead.
-- 
2.43.0


From 05949fe4efc8a230870227ba3cefabc8b988a0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:45 +0000
Subject: [PATCH 81/92] fix: loading walls of LUKE equilibria

The file was never closed, and a refused wall removed the previous one from
copies of the field.
---
 src/MagneticField/MagneticFieldLUKE.cpp | 43 +++++++++++++++----------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/MagneticField/MagneticFieldLUKE.cpp b/src/MagneticField/MagneticFieldLUKE.cpp
index c652797..801fd20 100644
--- a/src/MagneticField/MagneticFieldLUKE.cpp
+++ b/src/MagneticField/MagneticFieldLUKE.cpp
@@ -41,6 +41,7 @@
  * xypsin array to get the corresponding poloidal flux value.
  */
 
+#include <memory>
 #include <string>
 #include <softlib/MagneticField/MagneticFieldLUKE.h>
 #include <softlib/SFileException.h>
@@ -303,36 +304,35 @@ void MagneticFieldLUKE::LoadWall(const string& wallname) {
 	LoadWall(wallname, SFile::TypeOfFile(wallname));
 }
 void MagneticFieldLUKE::LoadWall(const string& wallname, enum sfile_type walltype) {
-	// Load wall (if given)
-	this->nwall = 0;
-	this->rwall = nullptr;
-	this->zwall = nullptr;
+	unsigned int nwall = 0;
+	slibreal_t *rwall = nullptr, *zwall = nullptr;
 
+	// Load wall (if given)
 	if (!wallname.empty()) {
-		SFile *sf = SFile::Create(wallname, SFILE_MODE_READ, walltype);
+		unique_ptr<SFile> sf(SFile::Create(wallname, SFILE_MODE_READ, walltype));
 		sfilesize_t fs[2];
 		
 		double **_wall = sf->GetDoubles("wall", fs);
 
 		if (fs[0] == 2) {
-			this->nwall = fs[1];
+			nwall = fs[1];
 
-			this->rwall = new slibreal_t[this->nwall];
-			this->zwall = new slibreal_t[this->nwall];
+			rwall = new slibreal_t[nwall];
+			zwall = new slibreal_t[nwall];
 
-			for (unsigned int i = 0; i < this->nwall; i++) {
-				this->rwall[i] = _wall[0][i];
-				this->zwall[i] = _wall[1][i];
+			for (unsigned int i = 0; i < nwall; i++) {
+				rwall[i] = _wall[0][i];
+				zwall[i] = _wall[1][i];
 			}
 		} else if (fs[1] == 2) {
-			this->nwall = fs[0];
+			nwall = fs[0];
 
-			this->rwall = new slibreal_t[this->nwall];
-			this->zwall = new slibreal_t[this->nwall];
+			rwall = new slibreal_t[nwall];
+			zwall = new slibreal_t[nwall];
 
-			for (unsigned int i = 0; i < this->nwall; i++) {
-				this->rwall[i] = _wall[i][0];
-				this->zwall[i] = _wall[i][1];
+			for (unsigned int i = 0; i < nwall; i++) {
+				rwall[i] = _wall[i][0];
+				zwall[i] = _wall[i][1];
 			}
 		} else
 			throw SFileException("%s: Invalid dimensions of wall: %zu x %zu. Expected 2 x many.",
@@ -341,8 +341,17 @@ void MagneticFieldLUKE::LoadWall(const string& wallname, enum sfile_type walltyp
 
 		delete [] _wall[0];
 		delete [] _wall;
+		sf->Close();
 	}
 
+	// Replace the previous wall (if any)
+	delete [] this->rwall;
+	delete [] this->zwall;
+
+	this->nwall = nwall;
+	this->rwall = rwall;
+	this->zwall = zwall;
+
 	if (this->rwall != nullptr && this->zwall != nullptr)
 		SetDomain(this->rwall, this->zwall, this->nwall);
 	else
-- 
2.43.0


From 6af6874d184442c47f0653b82b87bb785c0bcfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:33 +0000
Subject: [PATCH 82/92] fix: spurious values in typed settings

Vectors were allocated with n elements before n more were appended, so
that an overwritten setting (and every numeric vector) began with zeros.
Overwriting with a list of strings repeated its first string.
---
 src/Configuration/SFile/SettingSFile.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/Configuration/SFile/SettingSFile.cpp b/src/Configuration/SFile/SettingSFile.cpp
index 4cbf8c0..4e0184b 100644
--- a/src/Configuration/SFile/SettingSFile.cpp
+++ b/src/Configuration/SFile/SettingSFile.cpp
@@ -57,45 +57,45 @@ void SettingSFile::OverwriteValues(const Setting *s) {
         }
     } else {
         if (s->IsBool()) {
-            vector<bool> *v = new vector<bool>(s->GetNumberOfValues());
+            vector<bool> *v = new vector<bool>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
                 v->push_back(s->GetBool(i));
 
             this->SetValueBool(v);
         } else if (s->IsInteger32()) {
-            vector<int32_t> *v = new vector<int32_t>(s->GetNumberOfValues());
+            vector<int32_t> *v = new vector<int32_t>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
                 v->push_back(s->GetInteger32(i));
 
             this->SetValueInt32(v);
         } else if (s->IsInteger64()) {
-            vector<int64_t> *v = new vector<int64_t>(s->GetNumberOfValues());
+            vector<int64_t> *v = new vector<int64_t>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
                 v->push_back(s->GetInteger64(i));
 
             this->SetValueInt64(v);
         } else if (s->IsUnsignedInteger32()) {
-            vector<uint32_t> *v = new vector<uint32_t>(s->GetNumberOfValues());
+            vector<uint32_t> *v = new vector<uint32_t>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
                 v->push_back(s->GetUnsignedInteger32(i));
 
             this->SetValueUInt32(v);
         } else if (s->IsUnsignedInteger64()) {
-            vector<uint64_t> *v = new vector<uint64_t>(s->GetNumberOfValues());
+            vector<uint64_t> *v = new vector<uint64_t>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
                 v->push_back(s->GetUnsignedInteger64(i));
 
             this->SetValueUInt64(v);
         } else if (s->IsNumericVector()) {
-            vector<slibreal_t> *v = new vector<slibreal_t>(s->GetNumberOfValues());
+            vector<slibreal_t> *v = new vector<slibreal_t>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
                 v->push_back(s->GetScalar(i));
 
             this->SetValueReal(v);
         } else { // String
-            vector<string> *v = new vector<string>(s->GetNumberOfValues());
+            vector<string> *v = new vector<string>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
-                v->push_back(s->GetString());
+                v->push_back(s->GetString(i));
 
             this->SetValueString(v);
         }
@@ -162,7 +162,7 @@ string SettingSFile::GetString(unsigned int index) const {
         throw ConfigurationException("The data in setting '%s' is not of string type.", this->name.c_str());
 }
 vector<slibreal_t> SettingSFile::GetNumericVector() const {
-    vector<slibreal_t> v(GetNumberOfValues());
+    vector<slibreal_t> v;
 
     switch (this->dtype) {
         case DataType::INT32:
-- 
2.43.0


From fa118c2ce5136df955feb5ad1ae90fea9fbd77f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:33 +0000
Subject: [PATCH 83/92] fix: overwrite typed settings without changing the type

The static types of two pointers were compared, so that the values of a
typed setting were always converted as if they came from a script.
---
 src/Configuration/SFile/SettingSFile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Configuration/SFile/SettingSFile.cpp b/src/Configuration/SFile/SettingSFile.cpp
index 4e0184b..c7f1aee 100644
--- a/src/Configuration/SFile/SettingSFile.cpp
+++ b/src/Configuration/SFile/SettingSFile.cpp
@@ -40,8 +40,8 @@ void SettingSFile::DeleteCurrent() {
  *    of this setting.
  */
 void SettingSFile::OverwriteValues(const Setting *s) {
-    if (typeid(s) == typeid(SettingSFile*)) {
-        const SettingSFile *ss = (SettingSFile*)s;
+    const SettingSFile *ss = dynamic_cast<const SettingSFile*>(s);
+    if (ss != nullptr) {
 
         switch (ss->dtype) {
             case DataType::BOOL:   this->SetValueBool(new vector<bool>(*(ss->data.b))); break;
-- 
2.43.0


From 8d3a8f3749c34c8eae3dc99393c48edc76200731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:33 +0000
Subject: [PATCH 84/92] fix: copies of typed settings

Settings with real numbers or strings could not be copied, and every copy
lost the name of its setting.
---
 src/Configuration/SFile/SettingSFile.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/Configuration/SFile/SettingSFile.cpp b/src/Configuration/SFile/SettingSFile.cpp
index c7f1aee..c5a7b29 100644
--- a/src/Configuration/SFile/SettingSFile.cpp
+++ b/src/Configuration/SFile/SettingSFile.cpp
@@ -106,16 +106,23 @@ void SettingSFile::OverwriteValues(const Setting *s) {
  * Make a copy of this setting.
  */
 Setting *SettingSFile::Copy() {
+    SettingSFile *copy;
+
     switch (this->dtype) {
-        case DataType::BOOL:   return new SettingSFile(new vector<bool>(*(this->data.b)));
-        case DataType::INT32:  return new SettingSFile(new vector<int32_t>(*(this->data.i32)));
-        case DataType::INT64:  return new SettingSFile(new vector<int64_t>(*(this->data.i64)));
-        case DataType::UINT32: return new SettingSFile(new vector<uint32_t>(*(this->data.u32)));
-        case DataType::UINT64: return new SettingSFile(new vector<uint64_t>(*(this->data.u64)));
+        case DataType::BOOL:   copy = new SettingSFile(new vector<bool>(*(this->data.b))); break;
+        case DataType::INT32:  copy = new SettingSFile(new vector<int32_t>(*(this->data.i32))); break;
+        case DataType::INT64:  copy = new SettingSFile(new vector<int64_t>(*(this->data.i64))); break;
+        case DataType::UINT32: copy = new SettingSFile(new vector<uint32_t>(*(this->data.u32))); break;
+        case DataType::UINT64: copy = new SettingSFile(new vector<uint64_t>(*(this->data.u64))); break;
+        case DataType::REAL:   copy = new SettingSFile(new vector<slibreal_t>(*(this->data.r))); break;
+        case DataType::STRING: copy = new SettingSFile(new vector<string>(*(this->data.s))); break;
 
         default:
             throw ConfigurationException("The data in setting '%s' is of unrecognized type.", this->name.c_str());
     }
+
+    copy->name = this->name;
+    return copy;
 }
 
 /************************
-- 
2.43.0


From ac0c7cd86684a8fbbc061629d2a864e4cb1971a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:36 +0000
Subject: [PATCH 85/92] fix: type predicates of typed settings

Predicates for an element of a list looked at the first element only (or
denied that the element was a number at all), the expected length of a
numeric vector was ignored, and integers above 2^63 passed for 32-bit
integers.
---
 src/Configuration/SFile/SettingSFile.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/Configuration/SFile/SettingSFile.cpp b/src/Configuration/SFile/SettingSFile.cpp
index c5a7b29..50ed566 100644
--- a/src/Configuration/SFile/SettingSFile.cpp
+++ b/src/Configuration/SFile/SettingSFile.cpp
@@ -237,9 +237,14 @@ bool SettingSFile::IsInteger() const {
     }
 }
 bool SettingSFile::IsInteger(unsigned int) const { return IsInteger(); }
-bool SettingSFile::IsInteger32() const {
+bool SettingSFile::IsInteger32() const { return IsInteger32(0); }
+bool SettingSFile::IsInteger32(unsigned int index) const {
     if (IsInteger()) {
-        int64_t i = GetInteger();
+        // (a large unsigned integer is not a negative integer)
+        if (this->dtype == DataType::UINT64 && this->data.u64->at(index) > std::numeric_limits<uint32_t>::max())
+            return false;
+
+        int64_t i = GetInteger(index);
         if (i <= std::numeric_limits<int32_t>::max() &&
             i >= std::numeric_limits<int32_t>::min())
             return true;
@@ -248,7 +253,6 @@ bool SettingSFile::IsInteger32() const {
     } else
         return false;
 }
-bool SettingSFile::IsInteger32(unsigned int) const { return IsInteger32(); }
 bool SettingSFile::IsInteger64() const { return (this->dtype == DataType::INT64); }
 bool SettingSFile::IsInteger64(unsigned int) const { return IsInteger64(); }
 bool SettingSFile::IsUnsignedInteger32() const { return IsUnsignedInteger32(0); }
@@ -257,7 +261,7 @@ bool SettingSFile::IsUnsignedInteger32(unsigned int index) const {
     if (!IsUnsignedInteger64(index))
         return false;
 
-    int64_t i = GetInteger(index);
+    uint64_t i = GetUnsignedInteger64(index);
     if (i <= std::numeric_limits<uint32_t>::max())
         return true;
     else
@@ -285,9 +289,11 @@ bool SettingSFile::IsUnsignedInteger64(unsigned int index) const {
 bool SettingSFile::IsScalar() const {
     return (IsInteger() && this->GetNumberOfValues() == 1);
 }
-bool SettingSFile::IsScalar(unsigned int) const { return IsScalar(); }
+bool SettingSFile::IsScalar(unsigned int) const { return IsInteger(); }
 bool SettingSFile::IsNumericVector() const { return IsInteger(); }
-bool SettingSFile::IsNumericVector(unsigned int) const { return IsNumericVector(); }
+bool SettingSFile::IsNumericVector(unsigned int n) const {
+    return (IsNumericVector() && this->GetNumberOfValues() == n);
+}
 
 /************************
  * SETTERS              *
-- 
2.43.0


From b1df7d3d5986de1f576af827397e5ddcf0881a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:35 +0000
Subject: [PATCH 86/92] fix: row pointers of HDF5 matrices without rows

---
 src/SFile/SFile_HDF5.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index 8689440..aac0ba3 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -232,7 +232,8 @@ T **SFile_HDF5::GetArray2D(const string& name, sfilesize_t *dims, PredType p) {
 		pointers[0] = data;
 	} else {
 		data = new T[dims[0]*dims[1]];
-		pointers = new T*[dims[0]];
+		pointers = new T*[dims[0]+1];
+		pointers[0] = data;		// (also when there are no rows)
 		for (i = 0; i < dims[0]; i++) {
 			pointers[i] = data + (i*dims[1]);
 		}
-- 
2.43.0


From 5fbb19ec1edf40a9ee202cec26c0ff2a2ebeee97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:35 +0000
Subject: [PATCH 87/92] fix: multi-dimensional arrays with a dimension of size
 zero

---
 src/SFile/SFile.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/SFile/SFile.cpp b/src/SFile/SFile.cpp
index ad9cb01..02a2e89 100644
--- a/src/SFile/SFile.cpp
+++ b/src/SFile/SFile.cpp
@@ -105,17 +105,15 @@ void *SFile::GetMultiArray(const string& name, const sfilesize_t nndims, sfilesi
 		return (void*)ptr;
 
 	// Convert to multidimensional pointer
-	sfilesize_t nel = 1;
-	for (sfilesize_t i = 0; i < ndims; i++)
-		nel *= dims[i];
-
 	// Yes, this is horrible abuse of pointers...
 	double **arr;
 	for (sfilesize_t i = ndims-2; true; i--) {
-		sfilesize_t n = dims[i+1];
-		nel /= n;
+		sfilesize_t n = dims[i+1], nel = 1;
+		for (sfilesize_t j = 0; j <= i; j++)
+			nel *= dims[j];
 
-		arr = new double*[nel];
+		arr = new double*[nel+1];
+		arr[0] = ptr;	// (also when the array is empty)
 		for (sfilesize_t j = 0; j < nel; j++)
 			arr[j] = ptr + j * n;
 		
-- 
2.43.0


From aaccc054451d7c21d960dd37cab426d7a77e58be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:07 +0000
Subject: [PATCH 88/92] fix: reading character matrices from MATLAB files

GetString wrote past its buffers for two-dimensional character
arrays and for arrays with more than two dimensions.
---
 src/SFile/SFile_MAT.HDF5.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index c2ca3bb..81883d9 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -194,16 +194,20 @@ string SFile_MAT::GetString(const string& name) {
     DataSpace dspace = dataset.getSpace();
 
     sfilesize_t dims[2]={0,0};
-    sfilesize_t n = dspace.getSimpleExtentDims(dims);
+    sfilesize_t n = dspace.getSimpleExtentNdims();
     if (n != 1 && n != 2)
         throw SFileException("Invalid number of dimensions (%llu) for string: %s.", n, name.c_str());
+    dspace.getSimpleExtentDims(dims);
     
     if (type == PredType::STD_U16LE) {
         sfilesize_t len;
         if (n == 1)
             len = dims[0];
         else
-            len = (dims[1]==1?dims[0]:dims[1]);
+            len = dims[0]*dims[1];
+
+        if (n == 2 && dims[0] > 1 && dims[1] > 1)
+            throw SFileException("The requested variable is a character matrix, not a string: %s.", name.c_str());
 
         unsigned short *arr = new unsigned short[len];
         dataset.read(arr, type, dspace);
@@ -218,6 +222,9 @@ string SFile_MAT::GetString(const string& name) {
 
         s = str;
     } else if (type.getClass() == H5T_STRING) {
+        if (type.isVariableStr() && dspace.getSimpleExtentNpoints() != 1)
+            throw SFileException("The requested variable is a list of strings: %s.", name.c_str());
+
         dataset.read(s, type, dspace);
     } else {
         throw SFileException("Unrecognized data type for string.");
-- 
2.43.0


From 0d3a086fa81856c987cca50ee67c3c23b1bbf10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:07 +0000
Subject: [PATCH 89/92] fix: reading lists of variable-length strings

libhdf5 reads one pointer per string into the space for one.
---
 src/SFile/SFile_HDF5.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index aac0ba3..a3b05e4 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -160,6 +160,9 @@ string SFile_HDF5::GetAttributeString(const string& datasetname, const string& n
         if (type.getClass() != H5T_STRING)
             throw SFileException("The requested attribute of dataset '%s' is not a string: '%s'.", datasetname.c_str(), name.c_str());
 
+        if (type.isVariableStr() && attr.getSpace().getSimpleExtentNpoints() != 1)
+            throw SFileException("The requested attribute of dataset '%s' is a list of strings: '%s'.", datasetname.c_str(), name.c_str());
+
         attr.read(type, s);
         return s;
     } catch (H5::Exception &ex) {
@@ -187,6 +190,9 @@ string SFile_HDF5::GetString(const string& name) {
     if (type.getClass() != H5T_STRING)
         throw SFileException("%s: The requested variable is not a string: '%s'.", filename.c_str(), name.c_str());
 
+    if (type.isVariableStr() && dspace.getSimpleExtentNpoints() != 1)
+        throw SFileException("%s: The requested variable is a list of strings: '%s'.", filename.c_str(), name.c_str());
+
     dataset.read(s, type, dspace);
 
     return s;
-- 
2.43.0


From 8a35520588fd60e1572d8cf17f555419f704150d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:23 +0000
Subject: [PATCH 90/92] fix: SDT: reject matrix elements containing NUL bytes
 instead of reading them as numbers

---
 src/SFile/SFile_SDT.load.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SFile/SFile_SDT.load.cpp b/src/SFile/SFile_SDT.load.cpp
index 567824f..1c9ea49 100644
--- a/src/SFile/SFile_SDT.load.cpp
+++ b/src/SFile/SFile_SDT.load.cpp
@@ -74,7 +74,7 @@ void SFile_SDT::LoadMatrix(const string &name, const sfilesize_t nrows, const sf
             char *end = nullptr;
             if (ss >> token)
                 data.push_back(strtod(token.c_str(), &end));
-            if (end == nullptr || *end != 0)
+            if (end == nullptr || end == token.c_str() || end != token.c_str()+token.size())
                 throw SFileException("Invalid format of matrix '%s' at index (%llu, %llu).", name.c_str(), (unsigned long long)i, (unsigned long long)j);
         }
     }
-- 
2.43.0


From 47286377701e3020137d3e14d9b71a40ab9783a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:58 +0000
Subject: [PATCH 91/92] fix: Vector: divide by a scalar exactly also for
 vectors of integers

---
 include/softlib/General/Vector.tcc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/softlib/General/Vector.tcc b/include/softlib/General/Vector.tcc
index 4d11e3a..8c0be03 100644
--- a/include/softlib/General/Vector.tcc
+++ b/include/softlib/General/Vector.tcc
@@ -154,7 +154,10 @@ Vector<N,T>& Vector<N,T>::operator*=(const T& s) {
  */
 template<unsigned int N, class T>
 Vector<N,T>& Vector<N,T>::operator/=(const T& s) {
-	(*this) *= (1.0/s);
+	const T sc = s;		// 's' may be one of our own elements
+	for (unsigned int i = 0; i < N; i++)
+		elems[i] /= sc;
+
 	return *this;
 }
 
-- 
2.43.0


From 60e40dbd6ea4f1727633ebc1fd0dfd4e16013dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:26 +0000
Subject: [PATCH 92/92] fix: MagneticField2D: asking for the radii of another
 contour must not change those of the domain

---
 src/MagneticField/MagneticField2D.cpp | 32 ++++++++++++++-------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index 4451b88..f24a981 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -182,19 +182,19 @@ void MagneticField2D::GetDomainBounds(slibreal_t &rmin, slibreal_t &rmax, slibre
  * could be launched in the plasma.
  */
 slibreal_t MagneticField2D::GetMaxRadius() {
-	if (this->maxradius > 0)
-		return this->maxradius;
-	else
-		return this->FindMaxRadius();
+	if (!(this->maxradius > 0))
+		this->maxradius = this->FindMaxRadius();
+
+	return this->maxradius;
 }
 slibreal_t MagneticField2D::FindMaxRadius() {
 	return this->FindMaxRadius(this->ndomain, this->rdomain, this->zdomain);
 }
 slibreal_t MagneticField2D::GetMinRadius() {
-	if (this->minradius >= 0)
-		return this->minradius;
-	else
-		return this->FindMinRadius();
+	if (!(this->minradius >= 0))
+		this->minradius = this->FindMinRadius();
+
+	return this->minradius;
 }
 slibreal_t MagneticField2D::FindMinRadius() {
 	return this->FindMinRadius(this->ndomain, this->rdomain, this->zdomain);
@@ -254,10 +254,7 @@ slibreal_t MagneticField2D::FindMaxRadius(unsigned int n, slibreal_t *r, slibrea
 	if (!FindExtent(n, r, z, this->GetMagneticAxisZ(), rmin, rmax))
 		throw SOFTLibException("Unable to find maximum allowed drop radius. Magnetic axis not within domain.");
 
-	this->maxradius = rmax;
-	this->minradius = rmin;
-
-	return this->maxradius;
+	return rmax;
 }
 
 /**
@@ -323,8 +320,12 @@ void MagneticField2D::FindMaxMin(
  * magnetic axis.
  */
 slibreal_t MagneticField2D::FindMinRadius(unsigned int n, slibreal_t *r, slibreal_t *z) {
-	FindMaxRadius(n, r, z);
-	return this->minradius;
+	slibreal_t rmin, rmax;
+
+	if (!FindExtent(n, r, z, this->GetMagneticAxisZ(), rmin, rmax))
+		throw SOFTLibException("Unable to find minimum allowed drop radius. Magnetic axis not within domain.");
+
+	return rmin;
 }
 
 /**
@@ -464,7 +465,8 @@ void MagneticField2D::SetDomain(slibreal_t *rd, slibreal_t *zd, unsigned int nd)
     this->bounds_set = false;
     this->maxradius = this->minradius = -1;
 
-	this->FindMaxRadius();
+	this->maxradius = this->FindMaxRadius();
+	this->minradius = this->FindMinRadius();
 }
 
 /**
-- 
2.43.0

