From d22cd21eacb68c040e321f175b2b4a1fc76a2c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:14 +0000
Subject: [PATCH 01/12] fix: compound assignment of PsddParameter keeps the
 hash in step with the value

---
 src/psdd_parameter.cpp | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/psdd_parameter.cpp b/src/psdd_parameter.cpp
index 20c3cd9..260c7b8 100644
--- a/src/psdd_parameter.cpp
+++ b/src/psdd_parameter.cpp
@@ -76,28 +76,16 @@ bool PsddParameter::operator>(const PsddParameter &other) const {
 }
 
 PsddParameter &PsddParameter::operator+=(const PsddParameter &other) {
-  if (parameter_ == -std::numeric_limits<double>::infinity()) {
-    // if this is zero
-    parameter_ = other.parameter_;
-  } else if (other.parameter_ == -std::numeric_limits<double>::infinity()) {
-    // No change on the paramter_
-  } else {
-    if (parameter_ > other.parameter_) {
-      parameter_ += std::log1p(std::exp(other.parameter_ - parameter_));
-    } else {
-      parameter_ = other.parameter_ +
-                   std::log1p(std::exp(parameter_ - other.parameter_));
-    }
-  }
+  *this = *this + other;
   return *this;
 }
 
 PsddParameter &PsddParameter::operator/=(const PsddParameter &other) {
-  parameter_ -= other.parameter_;
+  *this = *this / other;
   return *this;
 }
 
 PsddParameter &PsddParameter::operator*=(const PsddParameter &other) {
-  parameter_ += other.parameter_;
+  *this = *this * other;
   return *this;
 }
-- 
2.43.0


From 0ba0089bed00d97c32e6371bdf90fd7aae57b4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:41 +0000
Subject: [PATCH 02/12] fix: top nodes that differ only in the false parameter
 are different nodes

---
 src/psdd_node.cpp         | 3 ++-
 src/psdd_unique_table.cpp | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/psdd_node.cpp b/src/psdd_node.cpp
index 612736e..7c597e8 100644
--- a/src/psdd_node.cpp
+++ b/src/psdd_node.cpp
@@ -983,7 +983,8 @@ PsddTopNode::PsddTopNode(uintmax_t *node_index, Vtree *vtree_node,
 bool PsddTopNode::operator==(const PsddTopNode &other) const {
   return variable_index_ == other.variable_index_ &&
          flag_index() == other.flag_index() &&
-         true_parameter_ == other.true_parameter_;
+         true_parameter_ == other.true_parameter_ &&
+         false_parameter_ == other.false_parameter_;
 }
 
 int PsddTopNode::node_type() const { return 3; }
diff --git a/src/psdd_unique_table.cpp b/src/psdd_unique_table.cpp
index 9a19e80..95c25b0 100644
--- a/src/psdd_unique_table.cpp
+++ b/src/psdd_unique_table.cpp
@@ -31,9 +31,13 @@ struct PsddUniqueTableSetFunctional {
           node_b->psdd_top_node()->variable_index()) {
         return node_a->psdd_top_node()->variable_index() <
                node_b->psdd_top_node()->variable_index();
-      } else {
+      } else if (node_a->psdd_top_node()->true_parameter() !=
+                 node_b->psdd_top_node()->true_parameter()) {
         return node_a->psdd_top_node()->true_parameter() <
                node_b->psdd_top_node()->true_parameter();
+      } else {
+        return node_a->psdd_top_node()->false_parameter() <
+               node_b->psdd_top_node()->false_parameter();
       }
     } else {
       if (node_b->node_type() != DECISION_NODE_TYPE) {
-- 
2.43.0


From 9c142850d869c22889e7b840c2376344344f634e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:17 +0000
Subject: [PATCH 03/12] fix: Multiply of an unsatisfiable (null) argument is
 unsatisfiable instead of a crash

---
 src/psdd_manager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/psdd_manager.cpp b/src/psdd_manager.cpp
index 26e4627..eeecf1e 100644
--- a/src/psdd_manager.cpp
+++ b/src/psdd_manager.cpp
@@ -572,6 +572,10 @@ PsddNode *PsddManager::NormalizePsddNode(Vtree *target_vtree_node,
 
 std::pair<PsddNode *, PsddParameter> PsddManager::Multiply(
     PsddNode *arg1, PsddNode *arg2, uintmax_t flag_index) {
+  if (arg1 == nullptr || arg2 == nullptr) {
+    // an unsatisfiable argument makes the product unsatisfiable
+    return {nullptr, PsddParameter::CreateFromDecimal(0)};
+  }
   ComputationCache cache((uint32_t)leaf_vtree_map_.size());
   return MultiplyWithCache(arg1, arg2, this, flag_index, &cache);
 }
-- 
2.43.0


From d3cd68ca065a426c6407e922fdd25b5aa325d956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:22 +0000
Subject: [PATCH 04/12] fix: a blank line in a CNF file is not an empty clause

---
 src/cnf.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cnf.cpp b/src/cnf.cpp
index 349bfb1..652af98 100644
--- a/src/cnf.cpp
+++ b/src/cnf.cpp
@@ -53,13 +53,18 @@ CNF::CNF(const char *filename) {
     std::vector<SddLiteral> clause;
     std::stringstream ss(line);
     SddLiteral token;
+    bool has_token = false;
     while (ss >> token) {
+      has_token = true;
       if (token == 0) {
         break;
       }
       clause.push_back(token);
     }
-    clauses_.push_back(clause);
+    if (has_token) {
+      // a line without literals is not a clause
+      clauses_.push_back(clause);
+    }
   }
   cnf_file.close();
 }
-- 
2.43.0


From 152fbf224035559ab27961867b869e08221f12d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:25 +0000
Subject: [PATCH 05/12] fix: a CNF file that cannot be opened is an error, not
 the empty CNF

---
 src/cnf.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cnf.cpp b/src/cnf.cpp
index 652af98..98970ac 100644
--- a/src/cnf.cpp
+++ b/src/cnf.cpp
@@ -4,7 +4,9 @@
 
 #include <cassert>
 #include <cmath>
+#include <cstdlib>
 #include <fstream>
+#include <iostream>
 #include <psdd/cnf.h>
 #include <psdd/psdd_unique_table.h>
 #include <queue>
@@ -42,6 +44,10 @@ SddNode *ConstructSddFromCnf(
 } // namespace
 CNF::CNF(const char *filename) {
   std::ifstream cnf_file(filename);
+  if (!cnf_file) {
+    std::cerr << "File " << filename << " cannot be open." << std::endl;
+    exit(1);
+  }
   std::string line;
   while (getline(cnf_file, line)) {
     if (line[0] == 'p') {
-- 
2.43.0


From 95d5ab2f8cae3b43053a9457c1eab02c9ddd1dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:28 +0000
Subject: [PATCH 06/12] fix: reading a PSDD accepts the -inf that writing emits
 for zero parameters

---
 src/psdd_manager.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/psdd_manager.cpp b/src/psdd_manager.cpp
index eeecf1e..8bd9272 100644
--- a/src/psdd_manager.cpp
+++ b/src/psdd_manager.cpp
@@ -6,6 +6,7 @@
 #include <psdd/psdd_unique_table.h>
 
 #include <cassert>
+#include <cstdlib>
 #include <fstream>
 #include <functional>
 #include <iostream>
@@ -580,6 +581,15 @@ std::pair<PsddNode *, PsddParameter> PsddManager::Multiply(
   return MultiplyWithCache(arg1, arg2, this, flag_index, &cache);
 }
 
+namespace {
+// unlike operator>>, accepts the "-inf" that is written for a zero parameter
+double ReadLogParameter(std::istream *input) {
+  std::string token;
+  *input >> token;
+  return std::strtod(token.c_str(), nullptr);
+}
+}  // namespace
+
 PsddNode *PsddManager::ReadPsddFile(const char *psdd_filename,
                                     uintmax_t flag_index) {
   std::ifstream psdd_file;
@@ -616,10 +626,9 @@ PsddNode *PsddManager::ReadPsddFile(const char *psdd_filename,
       uintmax_t node_index;
       uint32_t vtree_index;
       uint32_t variable_index;
-      double neg_log_pr;
-      double pos_log_pr;
-      iss >> node_index >> vtree_index >> variable_index >> neg_log_pr >>
-          pos_log_pr;
+      iss >> node_index >> vtree_index >> variable_index;
+      double neg_log_pr = ReadLogParameter(&iss);
+      double pos_log_pr = ReadLogParameter(&iss);
       PsddNode *cur_node = GetPsddTopNode(
           variable_index, flag_index, PsddParameter::CreateFromLog(pos_log_pr),
           PsddParameter::CreateFromLog(neg_log_pr));
@@ -638,8 +647,8 @@ PsddNode *PsddManager::ReadPsddFile(const char *psdd_filename,
       for (size_t j = 0; j < element_size; j++) {
         uintmax_t prime_index;
         uintmax_t sub_index;
-        double weight_in_log;
-        iss >> prime_index >> sub_index >> weight_in_log;
+        iss >> prime_index >> sub_index;
+        double weight_in_log = ReadLogParameter(&iss);
         assert(construct_cache.find(prime_index) != construct_cache.end());
         assert(construct_cache.find(sub_index) != construct_cache.end());
         PsddNode *prime_node = construct_cache[prime_index];
-- 
2.43.0


From 2953a28690d581dacf49529e513afeb6a9e4e1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:43 +0000
Subject: [PATCH 07/12] fix: a new BinaryData is empty instead of having
 indeterminate sizes

---
 include/psdd/binary_data.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/psdd/binary_data.h b/include/psdd/binary_data.h
index d4822fd..82b6ff8 100644
--- a/include/psdd/binary_data.h
+++ b/include/psdd/binary_data.h
@@ -27,8 +27,8 @@ class BinaryData {
   double CalculateEntropy() const;
  private:
   std::unordered_map<std::bitset<MAX_VAR>, uintmax_t> data_;
-  uint32_t variable_size_;
-  uintmax_t data_size_;
+  uint32_t variable_size_ = 0;
+  uintmax_t data_size_ = 0;
 };
 
 #endif //STRUCTURED_BAYESIAN_NETWORK_BINARY_DATA_H
-- 
2.43.0


From 6a08f84b97d9fcdc98148bc23583d54939f0bee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:43 +0000
Subject: [PATCH 08/12] fix: reading a data file replaces the earlier records
 along with the sizes

---
 src/binary_data.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/binary_data.cpp b/src/binary_data.cpp
index 3342a4a..9218d15 100644
--- a/src/binary_data.cpp
+++ b/src/binary_data.cpp
@@ -18,6 +18,7 @@ void BinaryData::ReadFile(const char *data_file) {
     exit(1);
   }
   CsvRow *row;
+  data_.clear();
   data_size_ = 0;
   variable_size_ = 0;
   while ((row = CsvParser_getRow(csvparser))) {
-- 
2.43.0


From 66b4e03fdff3a09519a5a6c4350fcd63317ba2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:43 +0000
Subject: [PATCH 09/12] fix: a data file that cannot be opened is an error, not
 the empty data set

---
 src/binary_data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary_data.cpp b/src/binary_data.cpp
index 9218d15..daa1e5a 100644
--- a/src/binary_data.cpp
+++ b/src/binary_data.cpp
@@ -13,7 +13,7 @@ using nlohmann::json;
 
 void BinaryData::ReadFile(const char *data_file) {
   CsvParser *csvparser = CsvParser_new(data_file, ",", 0);
-  if (csvparser == nullptr) {
+  if (csvparser == nullptr || !std::ifstream(data_file)) {
     std::cerr << "Failed to load csv" << std::endl;
     exit(1);
   }
-- 
2.43.0


From 45d7739d7b7f474d88e4c96db2f3a98fce708260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:43 +0000
Subject: [PATCH 10/12] fix: the CSV error message buffer has room for a long
 path

---
 src/csvparser.c | 480 ++++++++++++++++++++++++------------------------
 1 file changed, 240 insertions(+), 240 deletions(-)

diff --git a/src/csvparser.c b/src/csvparser.c
index 7e62b4a..f9a0caa 100644
--- a/src/csvparser.c
+++ b/src/csvparser.c
@@ -1,240 +1,240 @@
-#include <stdlib.h>
-#include <string.h>
-#include <stdio.h>
-#include <errno.h>
-
-#include <psdd/csvparser.h>
-
-#ifdef __cplusplus
-extern "C" {
-#endif
-
-CsvParser *CsvParser_new(const char *filePath, const char *delimiter, int firstLineIsHeader) {
-  CsvParser *csvParser = (CsvParser *) malloc(sizeof(CsvParser));
-  if (filePath == NULL) {
-    csvParser->filePath_ = NULL;
-  } else {
-    int filePathLen = strlen(filePath);
-    csvParser->filePath_ = (char *) malloc((filePathLen + 1));
-    strcpy(csvParser->filePath_, filePath);
-  }
-  csvParser->firstLineIsHeader_ = firstLineIsHeader;
-  csvParser->errMsg_ = NULL;
-  if (delimiter == NULL) {
-    csvParser->delimiter_ = ',';
-  } else if (_CsvParser_delimiterIsAccepted(delimiter)) {
-    csvParser->delimiter_ = *delimiter;
-  } else {
-    csvParser->delimiter_ = '\0';
-  }
-  csvParser->header_ = NULL;
-  csvParser->fileHandler_ = NULL;
-  csvParser->fromString_ = 0;
-  csvParser->csvString_ = NULL;
-  csvParser->csvStringIter_ = 0;
-
-  return csvParser;
-}
-
-CsvParser *CsvParser_new_from_string(const char *csvString, const char *delimiter, int firstLineIsHeader) {
-  CsvParser *csvParser = CsvParser_new(NULL, delimiter, firstLineIsHeader);
-  csvParser->fromString_ = 1;
-  if (csvString != NULL) {
-    int csvStringLen = strlen(csvString);
-    csvParser->csvString_ = (char *) malloc(csvStringLen + 1);
-    strcpy(csvParser->csvString_, csvString);
-  }
-  return csvParser;
-}
-
-void CsvParser_destroy(CsvParser *csvParser) {
-  if (csvParser == NULL) {
-    return;
-  }
-  if (csvParser->filePath_ != NULL) {
-    free(csvParser->filePath_);
-  }
-  if (csvParser->errMsg_ != NULL) {
-    free(csvParser->errMsg_);
-  }
-  if (csvParser->fileHandler_ != NULL) {
-    fclose(csvParser->fileHandler_);
-  }
-  if (csvParser->header_ != NULL) {
-    CsvParser_destroy_row(csvParser->header_);
-  }
-  if (csvParser->csvString_ != NULL) {
-    free(csvParser->csvString_);
-  }
-  free(csvParser);
-}
-
-void CsvParser_destroy_row(CsvRow *csvRow) {
-  int i;
-  for (i = 0; i < csvRow->numOfFields_; i++) {
-    free(csvRow->fields_[i]);
-  }
-  free(csvRow->fields_);
-  free(csvRow);
-}
-
-const CsvRow *CsvParser_getHeader(CsvParser *csvParser) {
-  if (!csvParser->firstLineIsHeader_) {
-    _CsvParser_setErrorMessage(csvParser, "Cannot supply header, as current CsvParser object does not support header");
-    return NULL;
-  }
-  if (csvParser->header_ == NULL) {
-    csvParser->header_ = _CsvParser_getRow(csvParser);
-  }
-  return csvParser->header_;
-}
-
-CsvRow *CsvParser_getRow(CsvParser *csvParser) {
-  if (csvParser->firstLineIsHeader_ && csvParser->header_ == NULL) {
-    csvParser->header_ = _CsvParser_getRow(csvParser);
-  }
-  return _CsvParser_getRow(csvParser);
-}
-
-int CsvParser_getNumFields(const CsvRow *csvRow) {
-  return csvRow->numOfFields_;
-}
-
-const char **CsvParser_getFields(const CsvRow *csvRow) {
-  return (const char **) csvRow->fields_;
-}
-
-CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
-  int numRowRealloc = 0;
-  int acceptedFields = 64;
-  int acceptedCharsInField = 64;
-  if (csvParser->filePath_ == NULL && (!csvParser->fromString_)) {
-    _CsvParser_setErrorMessage(csvParser, "Supplied CSV file path is NULL");
-    return NULL;
-  }
-  if (csvParser->csvString_ == NULL && csvParser->fromString_) {
-    _CsvParser_setErrorMessage(csvParser, "Supplied CSV string is NULL");
-    return NULL;
-  }
-  if (csvParser->delimiter_ == '\0') {
-    _CsvParser_setErrorMessage(csvParser, "Supplied delimiter is not supported");
-    return NULL;
-  }
-  if (!csvParser->fromString_) {
-    if (csvParser->fileHandler_ == NULL) {
-      csvParser->fileHandler_ = fopen(csvParser->filePath_, "r");
-      if (csvParser->fileHandler_ == NULL) {
-        int errorNum = errno;
-        const char *errStr = strerror(errorNum);
-        char *errMsg = (char *) malloc(1024 + strlen(errStr));
-        strcpy(errMsg, "");
-        sprintf(errMsg, "Error opening CSV file for reading: %s : %s", csvParser->filePath_, errStr);
-        _CsvParser_setErrorMessage(csvParser, errMsg);
-        free(errMsg);
-        return NULL;
-      }
-    }
-  }
-  CsvRow *csvRow = (CsvRow *) malloc(sizeof(CsvRow));
-  csvRow->fields_ = (char **) malloc(acceptedFields * sizeof(char *));
-  csvRow->numOfFields_ = 0;
-  int fieldIter = 0;
-  char *currField = (char *) malloc(acceptedCharsInField);
-  int inside_complex_field = 0;
-  int currFieldCharIter = 0;
-  int seriesOfQuotesLength = 0;
-  int lastCharIsQuote = 0;
-  int isEndOfFile = 0;
-  while (1) {
-    char currChar =
-        (csvParser->fromString_) ? csvParser->csvString_[csvParser->csvStringIter_] : fgetc(csvParser->fileHandler_);
-    csvParser->csvStringIter_++;
-    int endOfFileIndicator;
-    if (csvParser->fromString_) {
-      endOfFileIndicator = (currChar == '\0');
-    } else {
-      endOfFileIndicator = feof(csvParser->fileHandler_);
-    }
-    if (endOfFileIndicator) {
-      if (currFieldCharIter == 0 && fieldIter == 0) {
-        _CsvParser_setErrorMessage(csvParser, "Reached EOF");
-        free(currField);
-        CsvParser_destroy_row(csvRow);
-        return NULL;
-      }
-      currChar = '\n';
-      isEndOfFile = 1;
-    }
-    if (currChar == '\r') {
-      continue;
-    }
-    if (currFieldCharIter == 0 && !lastCharIsQuote) {
-      if (currChar == '\"') {
-        inside_complex_field = 1;
-        lastCharIsQuote = 1;
-        continue;
-      }
-    } else if (currChar == '\"') {
-      seriesOfQuotesLength++;
-      inside_complex_field = (seriesOfQuotesLength % 2 == 0);
-      if (inside_complex_field) {
-        currFieldCharIter--;
-      }
-    } else {
-      seriesOfQuotesLength = 0;
-    }
-    if (isEndOfFile || ((currChar == csvParser->delimiter_ || currChar == '\n') && !inside_complex_field)) {
-      currField[lastCharIsQuote ? currFieldCharIter - 1 : currFieldCharIter] = '\0';
-      csvRow->fields_[fieldIter] = (char *) malloc(currFieldCharIter + 1);
-      strcpy(csvRow->fields_[fieldIter], currField);
-      free(currField);
-      csvRow->numOfFields_++;
-      if (currChar == '\n') {
-        return csvRow;
-      }
-      if (csvRow->numOfFields_ != 0 && csvRow->numOfFields_ % acceptedFields == 0) {
-        csvRow->fields_ = (char **) realloc(csvRow->fields_, ((numRowRealloc + 2) * acceptedFields) * sizeof(char *));
-        numRowRealloc++;
-      }
-      acceptedCharsInField = 64;
-      currField = (char *) malloc(acceptedCharsInField);
-      currFieldCharIter = 0;
-      fieldIter++;
-      inside_complex_field = 0;
-    } else {
-      currField[currFieldCharIter] = currChar;
-      currFieldCharIter++;
-      if (currFieldCharIter == acceptedCharsInField - 1) {
-        acceptedCharsInField *= 2;
-        currField = (char *) realloc(currField, acceptedCharsInField);
-      }
-    }
-    lastCharIsQuote = (currChar == '\"') ? 1 : 0;
-  }
-}
-
-int _CsvParser_delimiterIsAccepted(const char *delimiter) {
-  char actualDelimiter = *delimiter;
-  if (actualDelimiter == '\n' || actualDelimiter == '\r' || actualDelimiter == '\0' ||
-      actualDelimiter == '\"') {
-    return 0;
-  }
-  return 1;
-}
-
-void _CsvParser_setErrorMessage(CsvParser *csvParser, const char *errorMessage) {
-  if (csvParser->errMsg_ != NULL) {
-    free(csvParser->errMsg_);
-  }
-  int errMsgLen = strlen(errorMessage);
-  csvParser->errMsg_ = (char *) malloc(errMsgLen + 1);
-  strcpy(csvParser->errMsg_, errorMessage);
-}
-
-const char *CsvParser_getErrorMessage(CsvParser *csvParser) {
-  return csvParser->errMsg_;
-}
-
-#ifdef __cplusplus
-}
-#endif
+#include <stdlib.h>
+#include <string.h>
+#include <stdio.h>
+#include <errno.h>
+
+#include <psdd/csvparser.h>
+
+#ifdef __cplusplus
+extern "C" {
+#endif
+
+CsvParser *CsvParser_new(const char *filePath, const char *delimiter, int firstLineIsHeader) {
+  CsvParser *csvParser = (CsvParser *) malloc(sizeof(CsvParser));
+  if (filePath == NULL) {
+    csvParser->filePath_ = NULL;
+  } else {
+    int filePathLen = strlen(filePath);
+    csvParser->filePath_ = (char *) malloc((filePathLen + 1));
+    strcpy(csvParser->filePath_, filePath);
+  }
+  csvParser->firstLineIsHeader_ = firstLineIsHeader;
+  csvParser->errMsg_ = NULL;
+  if (delimiter == NULL) {
+    csvParser->delimiter_ = ',';
+  } else if (_CsvParser_delimiterIsAccepted(delimiter)) {
+    csvParser->delimiter_ = *delimiter;
+  } else {
+    csvParser->delimiter_ = '\0';
+  }
+  csvParser->header_ = NULL;
+  csvParser->fileHandler_ = NULL;
+  csvParser->fromString_ = 0;
+  csvParser->csvString_ = NULL;
+  csvParser->csvStringIter_ = 0;
+
+  return csvParser;
+}
+
+CsvParser *CsvParser_new_from_string(const char *csvString, const char *delimiter, int firstLineIsHeader) {
+  CsvParser *csvParser = CsvParser_new(NULL, delimiter, firstLineIsHeader);
+  csvParser->fromString_ = 1;
+  if (csvString != NULL) {
+    int csvStringLen = strlen(csvString);
+    csvParser->csvString_ = (char *) malloc(csvStringLen + 1);
+    strcpy(csvParser->csvString_, csvString);
+  }
+  return csvParser;
+}
+
+void CsvParser_destroy(CsvParser *csvParser) {
+  if (csvParser == NULL) {
+    return;
+  }
+  if (csvParser->filePath_ != NULL) {
+    free(csvParser->filePath_);
+  }
+  if (csvParser->errMsg_ != NULL) {
+    free(csvParser->errMsg_);
+  }
+  if (csvParser->fileHandler_ != NULL) {
+    fclose(csvParser->fileHandler_);
+  }
+  if (csvParser->header_ != NULL) {
+    CsvParser_destroy_row(csvParser->header_);
+  }
+  if (csvParser->csvString_ != NULL) {
+    free(csvParser->csvString_);
+  }
+  free(csvParser);
+}
+
+void CsvParser_destroy_row(CsvRow *csvRow) {
+  int i;
+  for (i = 0; i < csvRow->numOfFields_; i++) {
+    free(csvRow->fields_[i]);
+  }
+  free(csvRow->fields_);
+  free(csvRow);
+}
+
+const CsvRow *CsvParser_getHeader(CsvParser *csvParser) {
+  if (!csvParser->firstLineIsHeader_) {
+    _CsvParser_setErrorMessage(csvParser, "Cannot supply header, as current CsvParser object does not support header");
+    return NULL;
+  }
+  if (csvParser->header_ == NULL) {
+    csvParser->header_ = _CsvParser_getRow(csvParser);
+  }
+  return csvParser->header_;
+}
+
+CsvRow *CsvParser_getRow(CsvParser *csvParser) {
+  if (csvParser->firstLineIsHeader_ && csvParser->header_ == NULL) {
+    csvParser->header_ = _CsvParser_getRow(csvParser);
+  }
+  return _CsvParser_getRow(csvParser);
+}
+
+int CsvParser_getNumFields(const CsvRow *csvRow) {
+  return csvRow->numOfFields_;
+}
+
+const char **CsvParser_getFields(const CsvRow *csvRow) {
+  return (const char **) csvRow->fields_;
+}
+
+CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
+  int numRowRealloc = 0;
+  int acceptedFields = 64;
+  int acceptedCharsInField = 64;
+  if (csvParser->filePath_ == NULL && (!csvParser->fromString_)) {
+    _CsvParser_setErrorMessage(csvParser, "Supplied CSV file path is NULL");
+    return NULL;
+  }
+  if (csvParser->csvString_ == NULL && csvParser->fromString_) {
+    _CsvParser_setErrorMessage(csvParser, "Supplied CSV string is NULL");
+    return NULL;
+  }
+  if (csvParser->delimiter_ == '\0') {
+    _CsvParser_setErrorMessage(csvParser, "Supplied delimiter is not supported");
+    return NULL;
+  }
+  if (!csvParser->fromString_) {
+    if (csvParser->fileHandler_ == NULL) {
+      csvParser->fileHandler_ = fopen(csvParser->filePath_, "r");
+      if (csvParser->fileHandler_ == NULL) {
+        int errorNum = errno;
+        const char *errStr = strerror(errorNum);
+        char *errMsg = (char *) malloc(1024 + strlen(csvParser->filePath_) + strlen(errStr));
+        strcpy(errMsg, "");
+        sprintf(errMsg, "Error opening CSV file for reading: %s : %s", csvParser->filePath_, errStr);
+        _CsvParser_setErrorMessage(csvParser, errMsg);
+        free(errMsg);
+        return NULL;
+      }
+    }
+  }
+  CsvRow *csvRow = (CsvRow *) malloc(sizeof(CsvRow));
+  csvRow->fields_ = (char **) malloc(acceptedFields * sizeof(char *));
+  csvRow->numOfFields_ = 0;
+  int fieldIter = 0;
+  char *currField = (char *) malloc(acceptedCharsInField);
+  int inside_complex_field = 0;
+  int currFieldCharIter = 0;
+  int seriesOfQuotesLength = 0;
+  int lastCharIsQuote = 0;
+  int isEndOfFile = 0;
+  while (1) {
+    char currChar =
+        (csvParser->fromString_) ? csvParser->csvString_[csvParser->csvStringIter_] : fgetc(csvParser->fileHandler_);
+    csvParser->csvStringIter_++;
+    int endOfFileIndicator;
+    if (csvParser->fromString_) {
+      endOfFileIndicator = (currChar == '\0');
+    } else {
+      endOfFileIndicator = feof(csvParser->fileHandler_);
+    }
+    if (endOfFileIndicator) {
+      if (currFieldCharIter == 0 && fieldIter == 0) {
+        _CsvParser_setErrorMessage(csvParser, "Reached EOF");
+        free(currField);
+        CsvParser_destroy_row(csvRow);
+        return NULL;
+      }
+      currChar = '\n';
+      isEndOfFile = 1;
+    }
+    if (currChar == '\r') {
+      continue;
+    }
+    if (currFieldCharIter == 0 && !lastCharIsQuote) {
+      if (currChar == '\"') {
+        inside_complex_field = 1;
+        lastCharIsQuote = 1;
+        continue;
+      }
+    } else if (currChar == '\"') {
+      seriesOfQuotesLength++;
+      inside_complex_field = (seriesOfQuotesLength % 2 == 0);
+      if (inside_complex_field) {
+        currFieldCharIter--;
+      }
+    } else {
+      seriesOfQuotesLength = 0;
+    }
+    if (isEndOfFile || ((currChar == csvParser->delimiter_ || currChar == '\n') && !inside_complex_field)) {
+      currField[lastCharIsQuote ? currFieldCharIter - 1 : currFieldCharIter] = '\0';
+      csvRow->fields_[fieldIter] = (char *) malloc(currFieldCharIter + 1);
+      strcpy(csvRow->fields_[fieldIter], currField);
+      free(currField);
+      csvRow->numOfFields_++;
+      if (currChar == '\n') {
+        return csvRow;
+      }
+      if (csvRow->numOfFields_ != 0 && csvRow->numOfFields_ % acceptedFields == 0) {
+        csvRow->fields_ = (char **) realloc(csvRow->fields_, ((numRowRealloc + 2) * acceptedFields) * sizeof(char *));
+        numRowRealloc++;
+      }
+      acceptedCharsInField = 64;
+      currField = (char *) malloc(acceptedCharsInField);
+      currFieldCharIter = 0;
+      fieldIter++;
+      inside_complex_field = 0;
+    } else {
+      currField[currFieldCharIter] = currChar;
+      currFieldCharIter++;
+      if (currFieldCharIter == acceptedCharsInField - 1) {
+        acceptedCharsInField *= 2;
+        currField = (char *) realloc(currField, acceptedCharsInField);
+      }
+    }
+    lastCharIsQuote = (currChar == '\"') ? 1 : 0;
+  }
+}
+
+int _CsvParser_delimiterIsAccepted(const char *delimiter) {
+  char actualDelimiter = *delimiter;
+  if (actualDelimiter == '\n' || actualDelimiter == '\r' || actualDelimiter == '\0' ||
+      actualDelimiter == '\"') {
+    return 0;
+  }
+  return 1;
+}
+
+void _CsvParser_setErrorMessage(CsvParser *csvParser, const char *errorMessage) {
+  if (csvParser->errMsg_ != NULL) {
+    free(csvParser->errMsg_);
+  }
+  int errMsgLen = strlen(errorMessage);
+  csvParser->errMsg_ = (char *) malloc(errMsgLen + 1);
+  strcpy(csvParser->errMsg_, errorMessage);
+}
+
+const char *CsvParser_getErrorMessage(CsvParser *csvParser) {
+  return csvParser->errMsg_;
+}
+
+#ifdef __cplusplus
+}
+#endif
-- 
2.43.0


From 950f488e890ba193014c8c29a294e2aa3ec1c5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:43 +0000
Subject: [PATCH 11/12] fix: a CSV file that ends in an opening quote no longer
 writes before the field buffer

---
 src/csvparser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvparser.c b/src/csvparser.c
index f9a0caa..8844d67 100644
--- a/src/csvparser.c
+++ b/src/csvparser.c
@@ -184,7 +184,7 @@ CsvRow *_CsvParser_getRow(CsvParser *csvParser) {
       seriesOfQuotesLength = 0;
     }
     if (isEndOfFile || ((currChar == csvParser->delimiter_ || currChar == '\n') && !inside_complex_field)) {
-      currField[lastCharIsQuote ? currFieldCharIter - 1 : currFieldCharIter] = '\0';
+      currField[lastCharIsQuote && currFieldCharIter > 0 ? currFieldCharIter - 1 : currFieldCharIter] = '\0';
       csvRow->fields_[fieldIter] = (char *) malloc(currFieldCharIter + 1);
       strcpy(csvRow->fields_[fieldIter], currField);
       free(currField);
-- 
2.43.0


From f48e7bb9b737ee6bda75722d6e81b3bb91d364aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:43 +0000
Subject: [PATCH 12/12] fix: a truncated factor file is an error instead of an
 endless loop

---
 src/uai_network.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/uai_network.cpp b/src/uai_network.cpp
index a7b7dd1..4956953 100644
--- a/src/uai_network.cpp
+++ b/src/uai_network.cpp
@@ -5,11 +5,21 @@
 #include "psdd/uai_network.h"
 
 #include <cassert>
+#include <cstdlib>
 #include <fstream>
 #include <iostream>
 #include <sstream>
 #include <string>
 
+namespace {
+void CheckNotTruncated(const std::ifstream& uaifs, const char* uai_file) {
+  if (!uaifs) {
+    std::cerr << "factor file " << uai_file << " is truncated." << std::endl;
+    exit(1);
+  }
+}
+}  // namespace
+
 UaiNetwork::UaiNetwork() {}
 
 UaiNetwork::UaiNetwork(size_t var_size, size_t factor_size, int network_type,
@@ -55,9 +65,10 @@ void UaiNetwork::read_file(const char* uai_file) {
   }
   for (int i = 0; i < m_factor_size; i++) {
     getline(uaifs, string_buf);
-    while (string_buf == "") {
+    while (string_buf == "" && uaifs) {
       getline(uaifs, string_buf);
     }
+    CheckNotTruncated(uaifs, uai_file);
     size_t entry_cnt;
     std::istringstream iss(string_buf);
     iss >> entry_cnt;
@@ -69,6 +80,7 @@ void UaiNetwork::read_file(const char* uai_file) {
     }
     while (param_list.size() < entry_cnt) {
       getline(uaifs, string_buf);
+      CheckNotTruncated(uaifs, uai_file);
       iss.str(string_buf);
       iss.clear();
       while (iss >> cur_entry) {
-- 
2.43.0

