From 26134ba88cf15fd25b71ad9e408b0aabea8e9134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:42 +0000
Subject: [PATCH 01/14] fix: report failed writes of generated files instead of
 exiting with success

Sources, root module, .sources and .modules were written without checking the
stream, so a full disk or an I/O error produced truncated output with exit
status 0. The root module is now also complete before the source list that
names it is written.
---
 source/context.cpp | 11 ++++++++++-
 source/util.cpp    |  2 ++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/source/context.cpp b/source/context.cpp
index 901750a..c96374f 100644
--- a/source/context.cpp
+++ b/source/context.cpp
@@ -483,12 +483,21 @@ void Context::generate(Config const &config)
 		root_module_file_handle << modules;
 		root_module_file_handle << "\n";
 	}
-	else {
+
+	// make sure that root module is completely written before publishing list of sources
+	root_module_file_handle.close();
+	if( root_module_file_handle.fail() ) throw std::runtime_error("ERROR: Can not write file " + root_module_full_file_name + "...");
+
+	if( not O_single_file ) {
 		std::ofstream f(root_module_prefix + ".sources");
 		for( auto &s : sources ) f << s << "\n";
+		f.close();
+		if( f.fail() ) throw std::runtime_error("ERROR: Can not write file " + root_module_prefix + ".sources...");
 
 		std::ofstream namespaces_file_handle(root_module_prefix + ".modules");
 		namespaces_file_handle << modules;
+		namespaces_file_handle.close();
+		if( namespaces_file_handle.fail() ) throw std::runtime_error("ERROR: Can not write file " + root_module_prefix + ".modules...");
 	}
 }
 
diff --git a/source/util.cpp b/source/util.cpp
index 2b425a5..0f9c3e5 100644
--- a/source/util.cpp
+++ b/source/util.cpp
@@ -146,6 +146,8 @@ void update_source_file(std::string const &prefix, std::string const &file_name,
 		std::ofstream f(full_file_name);
 		if( f.fail() ) throw std::runtime_error("ERROR: Can not open file " + full_file_name + " for writing...");
 		f << code;
+		f.close();
+		if( f.fail() ) throw std::runtime_error("ERROR: Can not write file " + full_file_name + "...");
 	}
 	else {
 		if( O_verbose ) outs() << "File " << full_file_name << " is up-to-date, skipping...\n";
-- 
2.43.0


From 07e05ca12dd19e1ddfd5e94e221de85b237cac7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:56 +0000
Subject: [PATCH 02/14] fix: fail if the configuration file can not be read to
 its end

A read error in the middle of the configuration file was taken for its end, so
the rest of the directives was silently ignored.
---
 source/config.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/config.cpp b/source/config.cpp
index 4c70aa9..fa3cc63 100644
--- a/source/config.cpp
+++ b/source/config.cpp
@@ -253,6 +253,8 @@ void Config::read(string const &file_name)
 									 "' Line: '" + line + '\'');
 		}
 	}
+
+	if( f.bad() ) throw std::runtime_error("error while reading file " + file_name + "...");
 }
 
 
-- 
2.43.0


From d20e834a53fa0128586c7a9212fcf611362f34c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:56 +0000
Subject: [PATCH 03/14] fix: do not lose generated code when a string stream
 runs out of memory

Streams swallow std::bad_alloc, so an allocation failure while assembling the
root module or the include block dropped part of the text silently.
---
 source/config.cpp  | 10 +++++-----
 source/context.cpp |  5 +----
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/source/config.cpp b/source/config.cpp
index fa3cc63..2fd220b 100644
--- a/source/config.cpp
+++ b/source/config.cpp
@@ -486,11 +486,11 @@ bool Config::is_include_skipping_requested(string const &include) const
 
 string Config::includes_code() const
 {
-	std::ostringstream s;
-	for( auto &i : includes_to_add ) s << "#include " << i << "\n";
-	if (O_include_pybind11_stl) s << "#include <pybind11/stl.h>\n";
-	if (s.tellp() != std::streampos(0)) s << '\n';
-	return s.str();
+	string s;
+	for( auto &i : includes_to_add ) s += "#include " + i + "\n";
+	if (O_include_pybind11_stl) s += "#include <pybind11/stl.h>\n";
+	if (s.size()) s += '\n';
+	return s;
 }
 
 } // namespace binder
diff --git a/source/context.cpp b/source/context.cpp
index c96374f..203a0bb 100644
--- a/source/context.cpp
+++ b/source/context.cpp
@@ -468,10 +468,7 @@ void Context::generate(Config const &config)
 
 	string const pybind11_include = "#include <" + Config::get().pybind11_include_file() + ">";
 
-	std::stringstream s;
-	s << fmt::format(main_module_header, pybind11_include, binding_function_decls, config.root_module, namespace_pairs, binding_function_calls);
-
-	root_module_file_handle << s.str();
+	root_module_file_handle << fmt::format(main_module_header, pybind11_include, binding_function_decls, config.root_module, namespace_pairs, binding_function_calls);
 
 	string root_module_prefix = config.prefix + '/' + config.root_module;
 
-- 
2.43.0


From 537f2fd75b2c441be3b3dc0915ef3358a2ac2203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:21 +0000
Subject: [PATCH 04/14] fix: create output directories without going through
 the shell

The prefix was pasted unquoted into a 'mkdir -p' command line, so prefixes with
blanks or shell metacharacters created directories elsewhere or ran commands.
---
 source/util.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/source/util.cpp b/source/util.cpp
index 0f9c3e5..fcf1647 100644
--- a/source/util.cpp
+++ b/source/util.cpp
@@ -22,7 +22,8 @@
 #include <clang/AST/ExprCXX.h>
 #include <clang/Basic/SourceManager.h>
 
-//#include <experimental/filesystem>
+#include <llvm/Support/FileSystem.h>
+
 #include <cctype>
 #include <cstdlib>
 #include <fstream>
@@ -133,9 +134,7 @@ void update_source_file(std::string const &prefix, std::string const &file_name,
 	dirs.pop_back();
 	for( auto &d : dirs ) path += "/" + d;
 
-	// std::experimental::filesystem::create_directories(path);
-	string command_line = "mkdir -p " + path;
-	if (system(command_line.c_str()) != 0) throw std::runtime_error("ERROR: Command \"" + command_line + "\" failed");
+	if( std::error_code error = llvm::sys::fs::create_directories(path) ) throw std::runtime_error("ERROR: Can not create directory " + path + ": " + error.message());
 
 	string full_file_name = prefix + '/' + file_name;
 	std::ifstream f(full_file_name);
-- 
2.43.0


From 782018584c5a3afeaf86fdc36cf6682d603d1654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:21 +0000
Subject: [PATCH 05/14] fix: never give two generated sources the same file or
 function name

Includes like <a/b.hpp> and <a_b.hpp>, or x.hpp split in two and x_1.hpp, got
the same binding function or file name, and a header named like the root module
overwrote the root module file.
---
 source/context.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/source/context.cpp b/source/context.cpp
index 203a0bb..ab537e9 100644
--- a/source/context.cpp
+++ b/source/context.cpp
@@ -330,6 +330,7 @@ void Context::generate(Config const &config)
 	vector<string> binding_function_names;
 
 	std::map<string, int> file_names;
+	std::set<string> function_names;
 	std::map<string, int> namespace_entrance;
 
 	string root_module_file_name = config.root_module + ".cpp";
@@ -345,19 +346,21 @@ void Context::generate(Config const &config)
 	for( uint i = 0; i < binders.size(); ++i ) {
 		if( binders[i]->code().empty() ) continue;
 
-		string np, file_name;
+		string np, file_name, function_name;
 
-		if( O_flat ) {
-			np = config.root_module + "_";
-			file_name = np + std::to_string(file_names[np]);
-		}
-		else {
-			np = file_name_prefix_for_binder(binders[i]);
-			file_name = np + (file_names[np] ? "_" + std::to_string(file_names[np]) : "");
-		}
-		++file_names[np];
+		do { // names derived from different includes could be the same: keep counting until we find unused one
+			if( O_flat ) {
+				np = config.root_module + "_";
+				file_name = np + std::to_string(file_names[np]);
+			}
+			else {
+				np = file_name_prefix_for_binder(binders[i]);
+				file_name = np + (file_names[np] ? "_" + std::to_string(file_names[np]) : "");
+			}
+			++file_names[np];
 
-		string function_name = "bind_" + replace_(file_name, "/", "_");
+			function_name = "bind_" + replace_(file_name, "/", "_");
+		} while( file_name == config.root_module or not function_names.insert(function_name).second );
 		file_name += ".cpp";
 
 		sources.push_back(file_name);
-- 
2.43.0


From bfdf69016f4ba05c361a4c9e8cc0f8b75c83b64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:21 +0000
Subject: [PATCH 06/14] fix: do not loop forever with --max-file-size 0

---
 source/context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/context.cpp b/source/context.cpp
index ab537e9..0828245 100644
--- a/source/context.cpp
+++ b/source/context.cpp
@@ -395,7 +395,7 @@ void Context::generate(Config const &config)
 			if( namespace_entrance[namespace_] == 0 ) code += "\n\t{}(M(\"{}\"));\n"_format(add_on_binder_for_namespaces.at(namespace_), namespace_);
 		}
 
-		for( ; code.size() < config.maximum_file_length and i < binders.size() and namespace_ == namespace_from_named_decl(binders[i]->named_decl()); ++i ) {
+		for( ; code.size() < std::max(config.maximum_file_length, std::size_t(1)) and i < binders.size() and namespace_ == namespace_from_named_decl(binders[i]->named_decl()); ++i ) {
 			// outs() << "Binding: " << string(*binders[i]) << "\n";
 			//  if( ClassBinder * CB = dynamic_cast<ClassBinder*>( binders[i].get() ) ) {
 			//  	std::vector<clang::CXXRecordDecl const *> const dependencies = CB->dependencies();
-- 
2.43.0


From 5e864ae6879eb725eee2de850fa5d4edbb138781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:18 +0000
Subject: [PATCH 07/14] fix: sphinx-doc-generator: tolerate output directory
 created by a concurrent run

---
 sphinx-doc-generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sphinx-doc-generator.py b/sphinx-doc-generator.py
index 01a9d06..eb1a7ef 100644
--- a/sphinx-doc-generator.py
+++ b/sphinx-doc-generator.py
@@ -147,7 +147,7 @@ def main(args):
     if Options.root is None: Options.root = os.path.basename(Options.module_file).split('.')[0]
 
     output_dir = os.path.abspath(Options.output)
-    if not os.path.isdir(output_dir): os.makedirs(output_dir)
+    os.makedirs(output_dir, exist_ok=True)
 
     if os.path.isdir(Options.module_file):
         print( '{Options.module_file} is a directory... treating it as root to Python module and collecting sub-modules info...'.format(**vars()) )
-- 
2.43.0


From 5cf05936db65a290446e64368708552a18f8c501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:42 +0000
Subject: [PATCH 08/14] fix: build.py: do not mistake an interrupted clone of
 pybind11 for a complete one

---
 build.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/build.py b/build.py
index 4971437..d0c7e35 100644
--- a/build.py
+++ b/build.py
@@ -254,7 +254,11 @@ def install_pybind11(prefix, clean=True):
     if not os.path.isdir(prefix): os.makedirs(prefix)
     package_dir = prefix + '/pybind11'
 
-    if not os.path.isdir(package_dir): execute('Clonning pybind11...', 'cd {} && git clone https://github.com/RosettaCommons/pybind11.git'.format(prefix) )
+    if not os.path.isdir(package_dir):
+        clone_dir = package_dir + '.clone'  # interrupted clone must not be mistaken for complete one
+        if os.path.isdir(clone_dir): shutil.rmtree(clone_dir)
+        execute('Clonning pybind11...', 'cd {} && git clone https://github.com/RosettaCommons/pybind11.git {}'.format(prefix, clone_dir) )
+        os.rename(clone_dir, package_dir)
     execute('Checking out PyBind11 revision: {}...'.format(_pybind11_version_), 'cd {package_dir} && ( {git_checkout} )'.format(package_dir=package_dir, git_checkout=git_checkout), silent=True)
     print()
 
-- 
2.43.0


From 1d6796927328575fa46025069d54e31a605e1778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:58 +0000
Subject: [PATCH 09/14] fix: build.py: recover from a checkout of pybind11 that
 was interrupted

---
 build.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/build.py b/build.py
index d0c7e35..bebbd1c 100644
--- a/build.py
+++ b/build.py
@@ -259,6 +259,10 @@ def install_pybind11(prefix, clean=True):
         if os.path.isdir(clone_dir): shutil.rmtree(clone_dir)
         execute('Clonning pybind11...', 'cd {} && git clone https://github.com/RosettaCommons/pybind11.git {}'.format(prefix, clone_dir) )
         os.rename(clone_dir, package_dir)
+
+    index_lock = package_dir + '/.git/index.lock'
+    if os.path.isfile(index_lock): os.unlink(index_lock)  # left by interrupted run, git will refuse to work as long as it is there
+
     execute('Checking out PyBind11 revision: {}...'.format(_pybind11_version_), 'cd {package_dir} && ( {git_checkout} )'.format(package_dir=package_dir, git_checkout=git_checkout), silent=True)
     print()
 
-- 
2.43.0


From 0da526eaa08f9b8dc85ec85e46d429e23d428132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:58 +0000
Subject: [PATCH 10/14] fix: build.py: rebuild when the signature file was only
 partially written

---
 build.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/build.py b/build.py
index bebbd1c..d41bab9 100644
--- a/build.py
+++ b/build.py
@@ -149,7 +149,9 @@ def install_llvm_tool(name, source_location, prefix_root, debug, compiler, jobs,
 
     disk_signature = dict(config = 'unknown', binder = 'unknown')
     if os.path.isfile(signature_file_name):
-        with open(signature_file_name) as f: disk_signature = json.load(f)
+        try:
+            with open(signature_file_name) as f: disk_signature = json.load(f)
+        except ValueError: pass  # file was not written completely, treating signature as unknown
 
     if signature == disk_signature:
         print('LLVM:{} + Binder install is detected at {}, skipping LLVM installation and Binder building procedures...\n'.format(llvm_version, build_dir))
-- 
2.43.0


From 6c465b80665bba6683d64b51abeda9a0e0a0e787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:58 +0000
Subject: [PATCH 11/14] fix: build.py: do not accept a partially removed build
 directory as complete

---
 build.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/build.py b/build.py
index d41bab9..1f28c0f 100644
--- a/build.py
+++ b/build.py
@@ -158,6 +158,7 @@ def install_llvm_tool(name, source_location, prefix_root, debug, compiler, jobs,
 
     else:
         print('LLVM build detected, but config/binder version has changed, perfoming a clean rebuild...')
+        if os.path.isfile(signature_file_name): os.unlink(signature_file_name)  # first, so interrupted removal can not be mistaken for complete install
         if os.path.isdir(build_dir): shutil.rmtree(build_dir)
 
         clang_path = "{prefix}/tools/clang".format(**locals())
-- 
2.43.0


From bcde9ce483081af111922135d0b286d56243d2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:58 +0000
Subject: [PATCH 12/14] fix: build.py: forget LLVM version of the shared cmake
 directory before overwriting it

---
 build.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/build.py b/build.py
index 1f28c0f..7a1e53a 100644
--- a/build.py
+++ b/build.py
@@ -177,6 +177,7 @@ def install_llvm_tool(name, source_location, prefix_root, debug, compiler, jobs,
 
         if not os.path.isfile(prefix + '/CMakeLists.txt') or not os.path.isfile(cmake_version_path) or open(cmake_version_path).read() != llvm_version:
             #execute('Download LLVM source...', 'cd {prefix_root} && curl https://releases.llvm.org/{llvm_version}/llvm-{llvm_version}.src.tar.xz | tar -Jxom && mv llvm-{llvm_version}.src {prefix}'.format(**locals()) )
+            if os.path.isfile(cmake_version_path): os.unlink(cmake_version_path)  # shared "cmake" directory is about to be overwritten
             if os.path.isdir(prefix): shutil.rmtree(prefix)
             execute('Download LLVM source...', 'cd {prefix_root} && curl -LJ {llvm_url} | tar -Jxom && mv llvm-{llvm_version}.src {prefix}'.format(**locals()) )
             os.makedirs(cmake_path, exist_ok=True)
-- 
2.43.0


From cb3ca8f5f905f66d7375c8f495bb9d0734c0d3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:58 +0000
Subject: [PATCH 13/14] fix: build.py: rewrite CMakeLists.txt of extra tools
 when it is incomplete

---
 build.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/build.py b/build.py
index 7a1e53a..06b4bfe 100644
--- a/build.py
+++ b/build.py
@@ -220,8 +220,7 @@ def install_llvm_tool(name, source_location, prefix_root, debug, compiler, jobs,
         cmake_lists = prefix + '/tools/clang/tools/extra/CMakeLists.txt'
         tool_build_line = 'add_subdirectory({})'.format(name)
 
-        if not os.path.isfile(cmake_lists):
-            with open(cmake_lists, 'w') as f: f.write(tool_build_line + '\n')
+        update_source_file(cmake_lists, tool_build_line + '\n')
 
         config = '-DCMAKE_BUILD_TYPE={build_type}'.format(build_type='Debug' if debug else 'Release')
         config += get_cmake_compiler_options(compiler)
-- 
2.43.0


From 29fac87685d49a809288ac2029bf7adebd0299f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:59 +0000
Subject: [PATCH 14/14] fix: build.py: do not build with a different compiler
 when compiler lookup fails

If 'which' failed, the empty result made cmake silently pick another compiler,
while the signature recorded the requested one. CMake looks names up in PATH itself.
---
 build.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/build.py b/build.py
index 06b4bfe..03cc0df 100644
--- a/build.py
+++ b/build.py
@@ -83,8 +83,8 @@ def get_compiler_family():
 
 def get_cmake_compiler_options(compiler):
     ''' Get cmake compiler flags from Options.compiler '''
-    if Platform == "linux" and compiler == 'clang': return ' -DCMAKE_C_COMPILER=`which clang` -DCMAKE_CXX_COMPILER=`which clang++`'
-    if Platform == "linux" and compiler == 'gcc': return ' -DCMAKE_C_COMPILER=`which gcc` -DCMAKE_CXX_COMPILER=`which g++`'
+    if Platform == "linux" and compiler == 'clang': return ' -DCMAKE_C_COMPILER=clang -DCMAKE_CXX_COMPILER=clang++'
+    if Platform == "linux" and compiler == 'gcc': return ' -DCMAKE_C_COMPILER=gcc -DCMAKE_CXX_COMPILER=g++'
 
     return ''
 
-- 
2.43.0

