From c65f30c8554ef3ac2fe8271888fea68ba21d3039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 01/19] fix: addArgument rejects any already used flag of the
 list, not only the first

---
 single_include/blet/args.h | 4 ++--
 src/args.cpp               | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 64b1326..047b5a0 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2793,8 +2793,8 @@ inline Argument& Args::addArgument(const Vector& nameOrFlags) {
 
         for (std::size_t i = 0; i < nameOrFlags.size(); ++i) {
             Argument::validFormatFlag_(nameOrFlags[i].c_str());
-            if (argumentFromName_.find(nameOrFlags.front()) != argumentFromName_.end()) {
-                throw ArgumentException(nameOrFlags.front().c_str(), "invalid flag already exist");
+            if (argumentFromName_.find(nameOrFlags[i]) != argumentFromName_.end()) {
+                throw ArgumentException(nameOrFlags[i].c_str(), "invalid flag already exist");
             }
             if (std::find(newFlags.begin(), newFlags.end(), nameOrFlags[i]) == newFlags.end()) {
                 newFlags.push_back(nameOrFlags[i]);
diff --git a/src/args.cpp b/src/args.cpp
index 3d2399b..0fd6936 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -239,8 +239,8 @@ Argument& Args::addArgument(const Vector& nameOrFlags) {
 
         for (std::size_t i = 0; i < nameOrFlags.size(); ++i) {
             Argument::validFormatFlag_(nameOrFlags[i].c_str());
-            if (argumentFromName_.find(nameOrFlags.front()) != argumentFromName_.end()) {
-                throw ArgumentException(nameOrFlags.front().c_str(), "invalid flag already exist");
+            if (argumentFromName_.find(nameOrFlags[i]) != argumentFromName_.end()) {
+                throw ArgumentException(nameOrFlags[i].c_str(), "invalid flag already exist");
             }
             if (std::find(newFlags.begin(), newFlags.end(), nameOrFlags[i]) == newFlags.end()) {
                 newFlags.push_back(nameOrFlags[i]);
-- 
2.43.0


From d0d42ad96bf974b3600227779f7e9e9cc2e3410b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 02/19] fix: value attached to a short option counts once and
 replaces the defaults

---
 single_include/blet/args.h | 2 --
 src/args.cpp               | 2 --
 2 files changed, 4 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 047b5a0..aec35f3 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2921,8 +2921,6 @@ inline void Args::parseShortArgument_(int maxIndex, char* argv[], int* index) {
                              (*(it->second))->type_ == Argument::MULTI_NUMBER_OPTION)) {
             hasArg = true;
             arg = options.substr(i + 1, options.size() - i);
-            (*(it->second))->isExist_ = true;
-            ++(*(it->second))->count_;
             parseArgument_(maxIndex, argv, index, hasArg, charOption.c_str(), arg.c_str(), *(it->second));
             return;
         }
diff --git a/src/args.cpp b/src/args.cpp
index 0fd6936..157627c 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -367,8 +367,6 @@ void Args::parseShortArgument_(int maxIndex, char* argv[], int* index) {
                              (*(it->second))->type_ == Argument::MULTI_NUMBER_OPTION)) {
             hasArg = true;
             arg = options.substr(i + 1, options.size() - i);
-            (*(it->second))->isExist_ = true;
-            ++(*(it->second))->count_;
             parseArgument_(maxIndex, argv, index, hasArg, charOption.c_str(), arg.c_str(), *(it->second));
             return;
         }
-- 
2.43.0


From c38f2197457d45daab9e0e9663328d7de46816f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 03/19] fix: dest() keeps the help and version options pointing
 at the new argument

---
 include/blet/args/argument.h | 11 +++++------
 single_include/blet/args.h   | 22 ++++++++++++++++------
 src/argument.cpp             | 11 +++++++++++
 3 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index a2cd6ad..bb68735 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -662,6 +662,8 @@ class Argument : public ArgumentElement {
 
     void clear_();
 
+    void replace_(Argument* argument);
+
     static void validFormatFlag_(const char* flag);
 
     static bool compareOption_(const Argument* first, const Argument* second);
@@ -692,8 +694,7 @@ class ArgumentType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     virtual ~ArgumentType() {}
 
@@ -727,8 +728,7 @@ class ArgumentVectorType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     virtual ~ArgumentVectorType() {}
 
@@ -799,8 +799,7 @@ class ArgumentVectorVectorType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     virtual ~ArgumentVectorVectorType() {}
 
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index aec35f3..04d5dd0 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1213,6 +1213,8 @@ class Argument : public ArgumentElement {
 
     void clear_();
 
+    void replace_(Argument* argument);
+
     static void validFormatFlag_(const char* flag);
 
     static bool compareOption_(const Argument* first, const Argument* second);
@@ -1243,8 +1245,7 @@ class ArgumentType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     inline virtual ~ArgumentType() {}
 
@@ -1278,8 +1279,7 @@ class ArgumentVectorType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     inline virtual ~ArgumentVectorType() {}
 
@@ -1350,8 +1350,7 @@ class ArgumentVectorVectorType : public Argument {
         Argument(*argument),
         dest_(dest),
         toDestCustom_(toDest) {
-        delete argument;
-        *this_ = this;
+        replace_(argument);
     }
     inline virtual ~ArgumentVectorVectorType() {}
 
@@ -3784,6 +3783,17 @@ inline void Argument::defaultsConstructor_() {
     }
 }
 
+inline void Argument::replace_(Argument* argument) {
+    if (args_.helpOption_ == argument) {
+        args_.helpOption_ = this;
+    }
+    if (args_.versionOption_ == argument) {
+        args_.versionOption_ = this;
+    }
+    delete argument;
+    *this_ = this;
+}
+
 inline void Argument::clear_() {
     argument_ = default_;
     isNumber_ = false;
diff --git a/src/argument.cpp b/src/argument.cpp
index e5607e7..b728040 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -567,6 +567,17 @@ void Argument::defaultsConstructor_() {
     }
 }
 
+void Argument::replace_(Argument* argument) {
+    if (args_.helpOption_ == argument) {
+        args_.helpOption_ = this;
+    }
+    if (args_.versionOption_ == argument) {
+        args_.versionOption_ = this;
+    }
+    delete argument;
+    *this_ = this;
+}
+
 void Argument::clear_() {
     argument_ = default_;
     isNumber_ = false;
-- 
2.43.0


From 247226db36416b62ea7d2fba042d0cd812374bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 04/19] fix: copying an argument keeps its default list

---
 single_include/blet/args.h | 2 +-
 src/argument.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 04d5dd0..32381b8 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3351,7 +3351,7 @@ inline Argument::Argument(const Argument& rhs) :
     validDeletable_(rhs.validDeletable_),
     this_(rhs.this_),
     action_(rhs.action_),
-    defaults_() {}
+    defaults_(rhs.defaults_) {}
 
 inline Argument::~Argument() {
     if (valid_ != NULL && validDeletable_) {
diff --git a/src/argument.cpp b/src/argument.cpp
index b728040..2337747 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -135,7 +135,7 @@ Argument::Argument(const Argument& rhs) :
     validDeletable_(rhs.validDeletable_),
     this_(rhs.this_),
     action_(rhs.action_),
-    defaults_() {}
+    defaults_(rhs.defaults_) {}
 
 Argument::~Argument() {
     if (valid_ != NULL && validDeletable_) {
-- 
2.43.0


From 2310ec89fa41d16e5665d0e186f4dd30abe8b61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 05/19] fix: a copy of an argument does not own its validator

---
 single_include/blet/args.h | 2 +-
 src/argument.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 32381b8..df769d5 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3348,7 +3348,7 @@ inline Argument::Argument(const Argument& rhs) :
     help_(rhs.help_),
     metavar_(rhs.metavar_),
     valid_(rhs.valid_),
-    validDeletable_(rhs.validDeletable_),
+    validDeletable_(false),
     this_(rhs.this_),
     action_(rhs.action_),
     defaults_(rhs.defaults_) {}
diff --git a/src/argument.cpp b/src/argument.cpp
index 2337747..2071aeb 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -132,7 +132,7 @@ Argument::Argument(const Argument& rhs) :
     help_(rhs.help_),
     metavar_(rhs.metavar_),
     valid_(rhs.valid_),
-    validDeletable_(rhs.validDeletable_),
+    validDeletable_(false),
     this_(rhs.this_),
     action_(rhs.action_),
     defaults_(rhs.defaults_) {}
-- 
2.43.0


From 1cc64e7710ca20f8b528571b47ad451dc1fdbe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 06/19] fix: command-line values of a positional list replace
 its defaults

---
 single_include/blet/args.h | 1 +
 src/args.cpp               | 1 +
 2 files changed, 2 insertions(+)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index df769d5..ed19fd5 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3147,6 +3147,7 @@ inline void Args::parsePositionnalArgument_(int argc, char* argv[], int* index,
     }
     if (it != arguments_.end()) {
         Argument& argument = *(*it);
+        argument.clear();
         if (argument.type_ == Argument::POSITIONAL_ARGUMENT) {
             argument.argument_ = argv[*index];
         }
diff --git a/src/args.cpp b/src/args.cpp
index 157627c..25d0db0 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -594,6 +594,7 @@ void Args::parsePositionnalArgument_(int argc, char* argv[], int* index, bool ha
     }
     if (it != arguments_.end()) {
         Argument& argument = *(*it);
+        argument.clear();
         if (argument.type_ == Argument::POSITIONAL_ARGUMENT) {
             argument.argument_ = argv[*index];
         }
-- 
2.43.0


From 81f11d2b4be02ebfddf74f51f48d223064ab43a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 07/19] fix: parseArguments restores default lists and forgets
 earlier additional arguments

---
 single_include/blet/args.h | 13 +++----------
 src/args.cpp               |  1 +
 src/argument.cpp           | 12 ++----------
 3 files changed, 6 insertions(+), 20 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index ed19fd5..bfcf400 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2618,6 +2618,7 @@ inline void Args::parseArguments(int argc, char* argv[]) {
     for (std::list<Argument*>::iterator it = arguments_.begin(); it != arguments_.end(); ++it) {
         (*it)->clear_();
     }
+    additionalArguments_.clear();
     // check help option exists
     if (helpOption_ == NULL) {
         const std::map<std::string, blet::args::Argument**>::const_iterator cith = argumentFromName_.find("-h");
@@ -3801,16 +3802,8 @@ inline void Argument::clear_() {
     number_ = 0.0;
     count_ = 0;
     isExist_ = false;
-    for (std::size_t i = 0; i < size(); ++i) {
-        at(i).argument_ = at(i).default_;
-        at(i).isNumber_ = false;
-        at(i).number_ = 0.0;
-        for (std::size_t j = 0; j < at(i).size(); ++j) {
-            at(i).at(j).argument_ = at(i).at(j).default_;
-            at(i).at(j).isNumber_ = false;
-            at(i).at(j).number_ = 0.0;
-        }
-    }
+    clear();
+    defaultsConstructor_();
 }
 
 } // namespace args
diff --git a/src/args.cpp b/src/args.cpp
index 25d0db0..f305c2c 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -65,6 +65,7 @@ void Args::parseArguments(int argc, char* argv[]) {
     for (std::list<Argument*>::iterator it = arguments_.begin(); it != arguments_.end(); ++it) {
         (*it)->clear_();
     }
+    additionalArguments_.clear();
     // check help option exists
     if (helpOption_ == NULL) {
         const std::map<std::string, blet::args::Argument**>::const_iterator cith = argumentFromName_.find("-h");
diff --git a/src/argument.cpp b/src/argument.cpp
index 2071aeb..dcc2f22 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -584,16 +584,8 @@ void Argument::clear_() {
     number_ = 0.0;
     count_ = 0;
     isExist_ = false;
-    for (std::size_t i = 0; i < size(); ++i) {
-        at(i).argument_ = at(i).default_;
-        at(i).isNumber_ = false;
-        at(i).number_ = 0.0;
-        for (std::size_t j = 0; j < at(i).size(); ++j) {
-            at(i).at(j).argument_ = at(i).at(j).default_;
-            at(i).at(j).isNumber_ = false;
-            at(i).at(j).number_ = 0.0;
-        }
-    }
+    clear();
+    defaultsConstructor_();
 }
 
 } // namespace args
-- 
2.43.0


From 8b14ab7e988e15da94567697a237ea26643d105b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 08/19] fix: STORE_FALSE, HELP and VERSION stay in force when
 nargs is already 0

---
 single_include/blet/args.h | 8 ++++----
 src/argument.cpp           | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index bfcf400..d291448 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3659,10 +3659,6 @@ inline void Argument::typeConstructor_() {
                                     "positional argument cannot use with this action or this nargs");
         }
     }
-    else if (nargs_ == 0 || action_ == Action::STORE_TRUE) {
-        nargs_ = 0;
-        type_ = Argument::BOOLEAN_OPTION;
-    }
     else if (action_ == Action::STORE_FALSE) {
         nargs_ = 0;
         type_ = Argument::REVERSE_BOOLEAN_OPTION;
@@ -3687,6 +3683,10 @@ inline void Argument::typeConstructor_() {
         nargs_ = 0;
         type_ = Argument::VERSION_OPTION;
     }
+    else if (nargs_ == 0 || action_ == Action::STORE_TRUE) {
+        nargs_ = 0;
+        type_ = Argument::BOOLEAN_OPTION;
+    }
     // is simple
     else if (nargs_ == 1 && action_ == Action::NONE) {
         type_ = Argument::SIMPLE_OPTION;
diff --git a/src/argument.cpp b/src/argument.cpp
index dcc2f22..ec0e6a2 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -441,10 +441,6 @@ void Argument::typeConstructor_() {
                                     "positional argument cannot use with this action or this nargs");
         }
     }
-    else if (nargs_ == 0 || action_ == Action::STORE_TRUE) {
-        nargs_ = 0;
-        type_ = Argument::BOOLEAN_OPTION;
-    }
     else if (action_ == Action::STORE_FALSE) {
         nargs_ = 0;
         type_ = Argument::REVERSE_BOOLEAN_OPTION;
@@ -469,6 +465,10 @@ void Argument::typeConstructor_() {
         nargs_ = 0;
         type_ = Argument::VERSION_OPTION;
     }
+    else if (nargs_ == 0 || action_ == Action::STORE_TRUE) {
+        nargs_ = 0;
+        type_ = Argument::BOOLEAN_OPTION;
+    }
     // is simple
     else if (nargs_ == 1 && action_ == Action::NONE) {
         type_ = Argument::SIMPLE_OPTION;
-- 
2.43.0


From c3512402e04da6649998008d1b1f18dba44cca2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 09/19] fix: a refused action, nargs or defaults leaves the
 argument unchanged

---
 include/blet/args/argument.h | 16 +++++++---
 single_include/blet/args.h   | 60 +++++++++++++++++++++++++++---------
 src/argument.cpp             | 44 +++++++++++++++++++-------
 3 files changed, 90 insertions(+), 30 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index bb68735..b6e2eae 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -512,9 +512,7 @@ class Argument : public ArgumentElement {
      * @throw ArgumentException
      */
     Argument& nargs(std::size_t nargs__) {
-        nargs_ = nargs__;
-        typeConstructor_();
-        defaultsConstructor_();
+        configure_(action_, nargs__);
         return *this;
     }
 
@@ -527,8 +525,16 @@ class Argument : public ArgumentElement {
      * @throw ArgumentException
      */
     Argument& defaults(const Vector& defaults__) {
+        const std::vector<std::string> previous(defaults_);
         defaults_ = defaults__;
-        defaultsConstructor_();
+        try {
+            defaultsConstructor_();
+        }
+        catch (const ArgumentException&) {
+            defaults_ = previous;
+            defaultsConstructor_();
+            throw;
+        }
         return *this;
     }
 
@@ -654,6 +660,8 @@ class Argument : public ArgumentElement {
 
     std::string metavarDefault_();
 
+    void configure_(enum Action::eAction action__, std::size_t nargs__);
+
     void typeConstructor_();
 
     void defaultsConstructor_();
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index d291448..9fcced4 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1063,9 +1063,7 @@ class Argument : public ArgumentElement {
      * @throw ArgumentException
      */
     inline Argument& nargs(std::size_t nargs__) {
-        nargs_ = nargs__;
-        typeConstructor_();
-        defaultsConstructor_();
+        configure_(action_, nargs__);
         return *this;
     }
 
@@ -1078,8 +1076,16 @@ class Argument : public ArgumentElement {
      * @throw ArgumentException
      */
     inline Argument& defaults(const Vector& defaults__) {
+        const std::vector<std::string> previous(defaults_);
         defaults_ = defaults__;
-        defaultsConstructor_();
+        try {
+            defaultsConstructor_();
+        }
+        catch (const ArgumentException&) {
+            defaults_ = previous;
+            defaultsConstructor_();
+            throw;
+        }
         return *this;
     }
 
@@ -1205,6 +1211,8 @@ class Argument : public ArgumentElement {
 
     std::string metavarDefault_();
 
+    void configure_(enum Action::eAction action__, std::size_t nargs__);
+
     void typeConstructor_();
 
     void defaultsConstructor_();
@@ -3468,17 +3476,7 @@ inline Argument& Argument::flag(const char* flag__) {
 }
 
 inline Argument& Argument::action(enum Action::eAction action__) {
-    // reset help option
-    if (action_ == Action::HELP) {
-        args_.helpOption_ = NULL;
-    }
-    // reset version option
-    if (action_ == Action::VERSION) {
-        args_.versionOption_ = NULL;
-    }
-    action_ = action__;
-    typeConstructor_();
-    defaultsConstructor_();
+    configure_(action__, nargs_);
     return *this;
 }
 
@@ -3638,6 +3636,38 @@ inline std::string Argument::metavarDefault_() {
     }
 }
 
+inline void Argument::configure_(enum Action::eAction action__, std::size_t nargs__) {
+    const enum Type type = type_;
+    const enum Action::eAction action = action_;
+    const std::size_t nargs = nargs_;
+    Argument* const helpOption = args_.helpOption_;
+    Argument* const versionOption = args_.versionOption_;
+    try {
+        // reset help option
+        if (args_.helpOption_ == this) {
+            args_.helpOption_ = NULL;
+        }
+        // reset version option
+        if (args_.versionOption_ == this) {
+            args_.versionOption_ = NULL;
+        }
+        action_ = action__;
+        nargs_ = nargs__;
+        typeConstructor_();
+        defaultsConstructor_();
+    }
+    catch (const ArgumentException&) {
+        // restore the previous configuration
+        type_ = type;
+        action_ = action;
+        nargs_ = nargs;
+        args_.helpOption_ = helpOption;
+        args_.versionOption_ = versionOption;
+        defaultsConstructor_();
+        throw;
+    }
+}
+
 inline void Argument::typeConstructor_() {
     if (isPositionnalArgument_()) {
         if (nargs_ == 1 && action_ == Action::NONE) {
diff --git a/src/argument.cpp b/src/argument.cpp
index ec0e6a2..c6b5e08 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -250,17 +250,7 @@ Argument& Argument::flag(const char* flag__) {
 }
 
 Argument& Argument::action(enum Action::eAction action__) {
-    // reset help option
-    if (action_ == Action::HELP) {
-        args_.helpOption_ = NULL;
-    }
-    // reset version option
-    if (action_ == Action::VERSION) {
-        args_.versionOption_ = NULL;
-    }
-    action_ = action__;
-    typeConstructor_();
-    defaultsConstructor_();
+    configure_(action__, nargs_);
     return *this;
 }
 
@@ -420,6 +410,38 @@ std::string Argument::metavarDefault_() {
     }
 }
 
+void Argument::configure_(enum Action::eAction action__, std::size_t nargs__) {
+    const enum Type type = type_;
+    const enum Action::eAction action = action_;
+    const std::size_t nargs = nargs_;
+    Argument* const helpOption = args_.helpOption_;
+    Argument* const versionOption = args_.versionOption_;
+    try {
+        // reset help option
+        if (args_.helpOption_ == this) {
+            args_.helpOption_ = NULL;
+        }
+        // reset version option
+        if (args_.versionOption_ == this) {
+            args_.versionOption_ = NULL;
+        }
+        action_ = action__;
+        nargs_ = nargs__;
+        typeConstructor_();
+        defaultsConstructor_();
+    }
+    catch (const ArgumentException&) {
+        // restore the previous configuration
+        type_ = type;
+        action_ = action;
+        nargs_ = nargs;
+        args_.helpOption_ = helpOption;
+        args_.versionOption_ = versionOption;
+        defaultsConstructor_();
+        throw;
+    }
+}
+
 void Argument::typeConstructor_() {
     if (isPositionnalArgument_()) {
         if (nargs_ == 1 && action_ == Action::NONE) {
-- 
2.43.0


From 91e67acac911c12d096e5cadcca904b55e8f24b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 10/19] fix: removeArguments accepts a name given twice

---
 single_include/blet/args.h | 4 +++-
 src/args.cpp               | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 9fcced4..bf768cf 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2835,7 +2835,9 @@ inline void Args::removeArguments(const Vector& nameOrFlags) {
         if (it == argumentFromName_.end()) {
             throw ArgumentException(nameOrFlags[i].c_str(), "argument not found");
         }
-        vIt.push_back(it);
+        if (std::find(vIt.begin(), vIt.end(), it) == vIt.end()) {
+            vIt.push_back(it);
+        }
     }
     for (std::size_t i = 0; i < vIt.size(); ++i) {
         Argument** ppArgument = vIt[i]->second;
diff --git a/src/args.cpp b/src/args.cpp
index f305c2c..31f73cd 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -274,7 +274,9 @@ void Args::removeArguments(const Vector& nameOrFlags) {
         if (it == argumentFromName_.end()) {
             throw ArgumentException(nameOrFlags[i].c_str(), "argument not found");
         }
-        vIt.push_back(it);
+        if (std::find(vIt.begin(), vIt.end(), it) == vIt.end()) {
+            vIt.push_back(it);
+        }
     }
     for (std::size_t i = 0; i < vIt.size(); ++i) {
         Argument** ppArgument = vIt[i]->second;
-- 
2.43.0


From eb3b08140d7a9834ec6f362b6e2a68652c757b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 11/19] fix: new defaults replace the previous default text and
 values

---
 include/blet/args/argument.h | 5 +++++
 single_include/blet/args.h   | 6 ++++++
 src/argument.cpp             | 1 +
 3 files changed, 12 insertions(+)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index b6e2eae..6cc25ad 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -528,6 +528,11 @@ class Argument : public ArgumentElement {
         const std::vector<std::string> previous(defaults_);
         defaults_ = defaults__;
         try {
+            if (defaults_.empty()) {
+                argument_.clear();
+                default_.clear();
+                clear();
+            }
             defaultsConstructor_();
         }
         catch (const ArgumentException&) {
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index bf768cf..ac53a62 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1079,6 +1079,11 @@ class Argument : public ArgumentElement {
         const std::vector<std::string> previous(defaults_);
         defaults_ = defaults__;
         try {
+            if (defaults_.empty()) {
+                argument_.clear();
+                default_.clear();
+                clear();
+            }
             defaultsConstructor_();
         }
         catch (const ArgumentException&) {
@@ -3794,6 +3799,7 @@ inline void Argument::defaultsConstructor_() {
                 throw ArgumentException(nameOrFlags_.front().c_str(),
                                         "invalid number of argument with number of default argument");
             }
+            default_ = "";
             for (std::size_t i = 0; i < defaults_.size() / nargs_; ++i) {
                 if (i > 0) {
                     default_ += ", ";
diff --git a/src/argument.cpp b/src/argument.cpp
index c6b5e08..4345674 100644
--- a/src/argument.cpp
+++ b/src/argument.cpp
@@ -566,6 +566,7 @@ void Argument::defaultsConstructor_() {
                 throw ArgumentException(nameOrFlags_.front().c_str(),
                                         "invalid number of argument with number of default argument");
             }
+            default_ = "";
             for (std::size_t i = 0; i < defaults_.size() / nargs_; ++i) {
                 if (i > 0) {
                     default_ += ", ";
-- 
2.43.0


From 35acfda2dbbce4db163f1941196d2985da6b586b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 12/19] fix: a program named "--" does not end the options

---
 include/blet/args/utils.h  | 2 +-
 single_include/blet/args.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/blet/args/utils.h b/include/blet/args/utils.h
index ff4fda2..3d57969 100644
--- a/include/blet/args/utils.h
+++ b/include/blet/args/utils.h
@@ -89,7 +89,7 @@ inline bool isEndOption(const char* arg) {
  * @return int
  */
 inline int endOptionIndex(int argc, char** argv) {
-    for (int i = 0; i < argc; ++i) {
+    for (int i = 1; i < argc; ++i) {
         if (isEndOption(argv[i])) {
             return i;
         }
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index ac53a62..af83cfb 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2551,7 +2551,7 @@ inline bool isEndOption(const char* arg) {
  * @return int
  */
 inline int endOptionIndex(int argc, char** argv) {
-    for (int i = 0; i < argc; ++i) {
+    for (int i = 1; i < argc; ++i) {
         if (isEndOption(argv[i])) {
             return i;
         }
-- 
2.43.0


From 9e1027383ed578e81c5bef48faa84efff6c2bd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 13/19] fix: do not read argv[0] when argc is 0

---
 single_include/blet/args.h | 2 +-
 src/args.cpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index af83cfb..d9ee78b 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -2650,7 +2650,7 @@ inline void Args::parseArguments(int argc, char* argv[]) {
         addArgument(flags).action(Action::HELP).help("show this help message and exit");
     }
     // get argv[0] if filename is empty
-    if (binaryName_.empty()) {
+    if (binaryName_.empty() && argc > 0) {
         binaryName_ = argv[0];
     }
     // save index of "--" if exist
diff --git a/src/args.cpp b/src/args.cpp
index 31f73cd..c090b35 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -84,7 +84,7 @@ void Args::parseArguments(int argc, char* argv[]) {
         addArgument(flags).action(Action::HELP).help("show this help message and exit");
     }
     // get argv[0] if filename is empty
-    if (binaryName_.empty()) {
+    if (binaryName_.empty() && argc > 0) {
         binaryName_ = argv[0];
     }
     // save index of "--" if exist
-- 
2.43.0


From d026db71ab84bd302cc2857e8c5968e81a0e0394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 14/19] fix: very large nargs cannot wrap around the argument
 count checks

---
 single_include/blet/args.h | 10 +++++-----
 src/args.cpp               | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index d9ee78b..1f41ecc 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3012,7 +3012,7 @@ inline void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool ha
                 break;
             case Argument::NUMBER_OPTION:
                 argument->clear();
-                if (*index + argument->nargs_ >= static_cast<unsigned int>(maxIndex)) {
+                if (argument->nargs_ >= static_cast<std::size_t>(maxIndex - *index)) {
                     throw ParseArgumentException(option, "bad number of argument");
                 }
                 for (unsigned int i = *index + 1; i <= (*index + argument->nargs_); ++i) {
@@ -3063,7 +3063,7 @@ inline void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool ha
                 if (argument->isExist_ == false) {
                     argument->clear();
                 }
-                if (*index + argument->nargs_ >= static_cast<unsigned int>(maxIndex)) {
+                if (argument->nargs_ >= static_cast<std::size_t>(maxIndex - *index)) {
                     throw ParseArgumentException(option, "bad number of argument");
                 }
                 ArgumentElement newNumberArgument;
@@ -3083,7 +3083,7 @@ inline void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool ha
                     if (endOfInfiniteArgument_(argv[i])) {
                         break;
                     }
-                    if (i + argument->nargs_ > static_cast<unsigned int>(maxIndex)) {
+                    if (argument->nargs_ > static_cast<std::size_t>(maxIndex - i)) {
                         throw ParseArgumentException(option, "bad number of argument");
                     }
                     ArgumentElement newNumberArgument;
@@ -3168,7 +3168,7 @@ inline void Args::parsePositionnalArgument_(int argc, char* argv[], int* index,
             argument.argument_ = argv[*index];
         }
         else if (argument.type_ == Argument::NUMBER_POSITIONAL_ARGUMENT) {
-            if (*index + argument.nargs_ > static_cast<unsigned int>(argc)) {
+            if (argument.nargs_ > static_cast<std::size_t>(argc - *index)) {
                 throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
             }
             for (unsigned int i = *index; i < (*index + argument.nargs_); ++i) {
@@ -3193,7 +3193,7 @@ inline void Args::parsePositionnalArgument_(int argc, char* argv[], int* index,
                 if (!hasEndOption && endOfInfiniteArgument_(argv[i])) {
                     break;
                 }
-                if (i + argument.nargs_ > static_cast<unsigned int>(argc)) {
+                if (argument.nargs_ > static_cast<std::size_t>(argc - i)) {
                     throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
                 }
                 ArgumentElement newNumberArgument;
diff --git a/src/args.cpp b/src/args.cpp
index c090b35..9f16cb9 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -446,7 +446,7 @@ void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool hasArg, c
                 break;
             case Argument::NUMBER_OPTION:
                 argument->clear();
-                if (*index + argument->nargs_ >= static_cast<unsigned int>(maxIndex)) {
+                if (argument->nargs_ >= static_cast<std::size_t>(maxIndex - *index)) {
                     throw ParseArgumentException(option, "bad number of argument");
                 }
                 for (unsigned int i = *index + 1; i <= (*index + argument->nargs_); ++i) {
@@ -497,7 +497,7 @@ void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool hasArg, c
                 if (argument->isExist_ == false) {
                     argument->clear();
                 }
-                if (*index + argument->nargs_ >= static_cast<unsigned int>(maxIndex)) {
+                if (argument->nargs_ >= static_cast<std::size_t>(maxIndex - *index)) {
                     throw ParseArgumentException(option, "bad number of argument");
                 }
                 ArgumentElement newNumberArgument;
@@ -517,7 +517,7 @@ void Args::parseArgument_(int maxIndex, char* argv[], int* index, bool hasArg, c
                     if (endOfInfiniteArgument_(argv[i])) {
                         break;
                     }
-                    if (i + argument->nargs_ > static_cast<unsigned int>(maxIndex)) {
+                    if (argument->nargs_ > static_cast<std::size_t>(maxIndex - i)) {
                         throw ParseArgumentException(option, "bad number of argument");
                     }
                     ArgumentElement newNumberArgument;
@@ -602,7 +602,7 @@ void Args::parsePositionnalArgument_(int argc, char* argv[], int* index, bool ha
             argument.argument_ = argv[*index];
         }
         else if (argument.type_ == Argument::NUMBER_POSITIONAL_ARGUMENT) {
-            if (*index + argument.nargs_ > static_cast<unsigned int>(argc)) {
+            if (argument.nargs_ > static_cast<std::size_t>(argc - *index)) {
                 throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
             }
             for (unsigned int i = *index; i < (*index + argument.nargs_); ++i) {
@@ -627,7 +627,7 @@ void Args::parsePositionnalArgument_(int argc, char* argv[], int* index, bool ha
                 if (!hasEndOption && endOfInfiniteArgument_(argv[i])) {
                     break;
                 }
-                if (i + argument.nargs_ > static_cast<unsigned int>(argc)) {
+                if (argument.nargs_ > static_cast<std::size_t>(argc - i)) {
                     throw ParseArgumentException(argument.nameOrFlags_.front().c_str(), "bad number of argument");
                 }
                 ArgumentElement newNumberArgument;
-- 
2.43.0


From c3361798c863165cc60e34ca6b9b4bfe017ee0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 15/19] fix: a used positional argument counts as one
 occurrence

---
 single_include/blet/args.h | 1 +
 src/args.cpp               | 1 +
 2 files changed, 2 insertions(+)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 1f41ecc..c3a5ed5 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -3206,6 +3206,7 @@ inline void Args::parsePositionnalArgument_(int argc, char* argv[], int* index,
             *index += countArg - 1;
         }
         argument.isExist_ = true;
+        ++argument.count_;
     }
     else {
         if (isStrict_) {
diff --git a/src/args.cpp b/src/args.cpp
index 9f16cb9..5cad859 100644
--- a/src/args.cpp
+++ b/src/args.cpp
@@ -640,6 +640,7 @@ void Args::parsePositionnalArgument_(int argc, char* argv[], int* index, bool ha
             *index += countArg - 1;
         }
         argument.isExist_ = true;
+        ++argument.count_;
     }
     else {
         if (isStrict_) {
-- 
2.43.0


From 88b0c3b1ba0c6292c25b1c1ce0f9bdd6a49f4868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 16/19] fix: ValidNumber refuses an empty value

---
 single_include/blet/args.h | 2 +-
 src/valid.cpp              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index c3a5ed5..6d5a89a 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -4363,7 +4363,7 @@ inline bool ValidNumber::isValid(std::vector<std::string>& args) {
     for (std::size_t i = 0; i < args.size(); ++i) {
         char* endPtr = NULL;
         ::strtod(args[i].c_str(), &endPtr);
-        if (endPtr != NULL && endPtr[0] != '\0') {
+        if (endPtr == args[i].c_str() || endPtr[0] != '\0') {
             std::ostringstream oss("");
             oss << "\"" << args[i] << "\" is not a number";
             throw ParseArgumentValidException(oss.str().c_str());
diff --git a/src/valid.cpp b/src/valid.cpp
index 28c6553..e1e70af 100644
--- a/src/valid.cpp
+++ b/src/valid.cpp
@@ -49,7 +49,7 @@ bool ValidNumber::isValid(std::vector<std::string>& args) {
     for (std::size_t i = 0; i < args.size(); ++i) {
         char* endPtr = NULL;
         ::strtod(args[i].c_str(), &endPtr);
-        if (endPtr != NULL && endPtr[0] != '\0') {
+        if (endPtr == args[i].c_str() || endPtr[0] != '\0') {
             std::ostringstream oss("");
             oss << "\"" << args[i] << "\" is not a number";
             throw ParseArgumentValidException(oss.str().c_str());
-- 
2.43.0


From 9458d42c506470ba40f86887e423e81f33c6963d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 17/19] fix: const char* destinations of list elements do not
 dangle

---
 include/blet/args/argument.h | 2 +-
 single_include/blet/args.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index 6cc25ad..2745259 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -255,7 +255,7 @@ class ArgumentElement : public std::vector<ArgumentElement> {
      *
      * @return std::string
      */
-    std::string getString() const {
+    const std::string& getString() const {
         return argument_;
     }
 
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 6d5a89a..661dc2d 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -806,7 +806,7 @@ class ArgumentElement : public std::vector<ArgumentElement> {
      *
      * @return std::string
      */
-    inline std::string getString() const {
+    inline const std::string& getString() const {
         return argument_;
     }
 
-- 
2.43.0


From e1f2dedf4b57ee280e3a1c62c9dcfc2037544bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 18/19] fix: an absent list writes no element to a vector
 destination

---
 include/blet/args/argument.h | 25 +++++++++++++++++++++----
 single_include/blet/args.h   | 25 +++++++++++++++++++++----
 2 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index 2745259..a9c336e 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -657,6 +657,23 @@ class Argument : public ArgumentElement {
         }
     }
 
+    bool isListType_() const {
+        switch (type_) {
+            case NUMBER_OPTION:
+            case INFINITE_OPTION:
+            case MULTI_OPTION:
+            case MULTI_INFINITE_OPTION:
+            case MULTI_NUMBER_OPTION:
+            case MULTI_NUMBER_INFINITE_OPTION:
+            case NUMBER_POSITIONAL_ARGUMENT:
+            case INFINITE_POSITIONAL_ARGUMENT:
+            case INFINITE_NUMBER_POSITIONAL_ARGUMENT:
+                return true;
+            default:
+                return false;
+        }
+    }
+
     virtual void toDest_() {
         /* do nothing */
     }
@@ -761,7 +778,7 @@ class ArgumentVectorType : public Argument {
                     }
                 }
             }
-            else {
+            else if (!isListType_()) {
                 arguments.push_back(argument_);
             }
             toDestCustom_(dest_, isExist_, arguments);
@@ -783,7 +800,7 @@ class ArgumentVectorType : public Argument {
                     }
                 }
             }
-            else {
+            else if (!isListType_()) {
                 T dest;
                 if (type_ == BOOLEAN_OPTION) {
                     boolTo(isExist_, dest);
@@ -834,7 +851,7 @@ class ArgumentVectorVectorType : public Argument {
                     arguments.push_back(tmpVector);
                 }
             }
-            else {
+            else if (!isListType_()) {
                 std::vector<std::string> tmpVector;
                 tmpVector.push_back(argument_);
                 arguments.push_back(tmpVector);
@@ -860,7 +877,7 @@ class ArgumentVectorVectorType : public Argument {
                     dest_.push_back(vectorDest);
                 }
             }
-            else {
+            else if (!isListType_()) {
                 T dest;
                 if (type_ == BOOLEAN_OPTION) {
                     boolTo(isExist_, dest);
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 661dc2d..22ae95c 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1208,6 +1208,23 @@ class Argument : public ArgumentElement {
         }
     }
 
+    inline bool isListType_() const {
+        switch (type_) {
+            case NUMBER_OPTION:
+            case INFINITE_OPTION:
+            case MULTI_OPTION:
+            case MULTI_INFINITE_OPTION:
+            case MULTI_NUMBER_OPTION:
+            case MULTI_NUMBER_INFINITE_OPTION:
+            case NUMBER_POSITIONAL_ARGUMENT:
+            case INFINITE_POSITIONAL_ARGUMENT:
+            case INFINITE_NUMBER_POSITIONAL_ARGUMENT:
+                return true;
+            default:
+                return false;
+        }
+    }
+
     inline virtual void toDest_() {
         /* do nothing */
     }
@@ -1312,7 +1329,7 @@ class ArgumentVectorType : public Argument {
                     }
                 }
             }
-            else {
+            else if (!isListType_()) {
                 arguments.push_back(argument_);
             }
             toDestCustom_(dest_, isExist_, arguments);
@@ -1334,7 +1351,7 @@ class ArgumentVectorType : public Argument {
                     }
                 }
             }
-            else {
+            else if (!isListType_()) {
                 T dest;
                 if (type_ == BOOLEAN_OPTION) {
                     boolTo(isExist_, dest);
@@ -1385,7 +1402,7 @@ class ArgumentVectorVectorType : public Argument {
                     arguments.push_back(tmpVector);
                 }
             }
-            else {
+            else if (!isListType_()) {
                 std::vector<std::string> tmpVector;
                 tmpVector.push_back(argument_);
                 arguments.push_back(tmpVector);
@@ -1411,7 +1428,7 @@ class ArgumentVectorVectorType : public Argument {
                     dest_.push_back(vectorDest);
                 }
             }
-            else {
+            else if (!isListType_()) {
                 T dest;
                 if (type_ == BOOLEAN_OPTION) {
                     boolTo(isExist_, dest);
-- 
2.43.0


From 26b0ec375007e9c23ae25108a8a89e5659b5c83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:17 +0000
Subject: [PATCH 19/19] fix: valid() does not delete the validator it is given
 again

---
 include/blet/args/argument.h | 2 +-
 single_include/blet/args.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/blet/args/argument.h b/include/blet/args/argument.h
index a9c336e..07f88e0 100644
--- a/include/blet/args/argument.h
+++ b/include/blet/args/argument.h
@@ -551,7 +551,7 @@ class Argument : public ArgumentElement {
      * @return this reference
      */
     Argument& valid(IValid* pValid, bool isDeletable = true) {
-        if (valid_ != NULL && validDeletable_) {
+        if (valid_ != NULL && valid_ != pValid && validDeletable_) {
             delete valid_;
         }
         valid_ = pValid;
diff --git a/single_include/blet/args.h b/single_include/blet/args.h
index 22ae95c..b92d990 100644
--- a/single_include/blet/args.h
+++ b/single_include/blet/args.h
@@ -1102,7 +1102,7 @@ class Argument : public ArgumentElement {
      * @return this reference
      */
     inline Argument& valid(IValid* pValid, bool isDeletable = true) {
-        if (valid_ != NULL && validDeletable_) {
+        if (valid_ != NULL && valid_ != pValid && validDeletable_) {
             delete valid_;
         }
         valid_ = pValid;
-- 
2.43.0

