---- MODULE Tables ----
(* The built-in tables of the formatter, as documented in tables/tables.go (data, transcribed once). *)
LOCAL INSTANCE TLC
LOCAL INSTANCE Sequences
LOCAL INSTANCE Integers
LabelArgs == {"app_target", "appdir", "base_package", "build_deps", "cc_deps", "ccdeps", "common_deps", "compile_deps", "compiler", "data", "default_visibility", "dep", "deps", "deps_java", "dont_depend_on", "env_deps", "envscripts", "exported_deps", "exports", "externs_list", "files", "globals", "implementation", "implementation_deps", "implements", "includes", "interface", "jar", "jars", "javadeps", "lib_deps", "library", "malloc", "model", "mods", "module_deps", "module_target", "of", "plugins", "private_deps", "proto_deps", "proto_target", "protos", "resource", "resources", "runtime_deps", "scope", "shared_deps", "similar_deps", "source_jar", "src", "srcs", "stripped_targets", "suites", "swigdeps", "target", "target_devices", "target_platforms", "template", "test", "test_data", "test_deps", "test_srcs", "tests", "tests_deps", "tool", "tools", "visibility"}
LabelDeny == {"package_group.includes"}
SortableArgs == {"cc_deps", "common_deps", "compile_deps", "configs", "constraints", "data", "default_visibility", "deps", "deps_java", "exported_deps", "exports", "filegroups", "files", "hdrs", "implementation_deps", "imports", "includes", "inherits", "javadeps", "lib_deps", "module_deps", "outs", "packages", "plugin_modules", "private_deps", "proto_deps", "protos", "pubs", "resources", "runtime_deps", "shared_deps", "similar_deps", "srcs", "swig_includes", "swigdeps", "tags", "test_data", "test_deps", "test_srcs", "test_tags", "tests", "to_start_extensions", "tools", "visibility"}
SortableDeny == {"cc_embed_data.srcs", "genrule.outs", "genrule.srcs"}
SortableAllow == {}
PrioDom == {"alwayslink", "archive_override.module_name", "baseline", "bazel_dep.version", "deps", "destdir", "exports", "git_override.module_name", "gwt_name", "has_services", "hdrs", "implementation", "implements", "include", "local_path_override.module_name", "module.version", "multiple_version_override.module_name", "name", "of", "out", "outs", "package_name", "runtime_deps", "single_version_override.module_name", "size", "src", "srcdir", "srcs", "testonly", "timeout", "visible_node_name"}
PrioTab == 
("alwayslink" :> 7)
 @@ ("archive_override.module_name" :> -99)
 @@ ("baseline" :> -83)
 @@ ("bazel_dep.version" :> -98)
 @@ ("deps" :> 4)
 @@ ("destdir" :> 1)
 @@ ("exports" :> 2)
 @@ ("git_override.module_name" :> -99)
 @@ ("gwt_name" :> -98)
 @@ ("has_services" :> -86)
 @@ ("hdrs" :> -87)
 @@ ("implementation" :> 5)
 @@ ("implements" :> 6)
 @@ ("include" :> -85)
 @@ ("local_path_override.module_name" :> -99)
 @@ ("module.version" :> -98)
 @@ ("multiple_version_override.module_name" :> -99)
 @@ ("name" :> -99)
 @@ ("of" :> -84)
 @@ ("out" :> -89)
 @@ ("outs" :> -88)
 @@ ("package_name" :> -97)
 @@ ("runtime_deps" :> 3)
 @@ ("single_version_override.module_name" :> -99)
 @@ ("size" :> -95)
 @@ ("src" :> -92)
 @@ ("srcdir" :> -91)
 @@ ("srcs" :> -90)
 @@ ("testonly" :> -93)
 @@ ("timeout" :> -94)
 @@ ("visible_node_name" :> -96)
Prio(rule, arg) == IF (rule \o "." \o arg) \in PrioDom THEN PrioTab[rule \o "." \o arg] ELSE IF arg \in PrioDom THEN PrioTab[arg] ELSE 0
====
