"""Writes properties.jsonl and MANIFEST.json: python3 sa/props.py"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # (record, check or None, not-applicable reason)


def prop(id, title, statement, over, text, why, files, mech, state=(),
         technique=None, level="other", note="", na=None):
    r = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [
             {"name": n, "where": w} for n, w in mech]}}
    if state:
        r["anchors"]["state"] = [
            {"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append((r, technique and {
        "property": id,
        "quick_cmd": "python3 sa/check.py " + id,
        "thorough_cmd": "VERIF_TIER=thorough python3 sa/check.py " + id,
        "evidence_file": f"evidence/{id}.json",
        "technique": technique, "level": level, "level_note": note}, na))


prop("C09", "Comparisons, hashes and identifiers cover what they stand for",
     "operator== of a class of the project is true of equal objects and "
     "false if one member that belongs to the identity differs, operator!= "
     "is its negation and operator< orders objects that differ; std::hash of "
     "a class depends on nothing that operator== ignores, and not on "
     "addresses. Every identifier (of an action, artifact, tree, tree "
     "overlay, expression, repository, root, remote backend, cached target, "
     "and the file a fetched root is cached in) depends on every part of "
     "what it stands for, each fed to the hash on every path, framed so that "
     "different sequences of parts do not run together; the description and "
     "memoized keys of a repository are renewed when it changes.",
     ["inputs"],
     "all pairs of objects that differ in one member, for all comparison "
     "operators; all parts of all identifiers",
     "A dropped part only shows for two objects that agree in everything "
     "else, and then as a wrong cache hit far away from the cause.",
     ["src/buildtool/build_engine/target_map/utils.cpp",
      "src/buildtool/build_engine/target_map/configured_target.hpp",
      "src/buildtool/build_engine/expression/expression.cpp",
      "src/buildtool/build_engine/expression/target_node.hpp",
      "src/buildtool/build_engine/base_maps/entity_name_data.hpp",
      "src/buildtool/common/artifact_description.cpp",
      "src/buildtool/common/repository_config.cpp",
      "src/buildtool/common/repository_config.hpp",
      "src/buildtool/common/tree.hpp",
      "src/buildtool/common/tree_overlay.hpp",
      "src/buildtool/file_system/file_root.hpp",
      "src/buildtool/file_system/precomputed_root.cpp",
      "src/buildtool/storage/fs_utils.cpp",
      "src/buildtool/storage/backend_description.cpp",
      "src/buildtool/storage/target_cache.tpp",
      "src/other_tools/ops_maps/critical_git_op_map.hpp"],
     [("createAction", "src/buildtool/build_engine/target_map/utils.cpp"),
      ("Expression::ComputeHash",
       "src/buildtool/build_engine/expression/expression.cpp"),
      ("AddToGraphAndGetId, DeduplicateRepo",
       "src/buildtool/common/repository_config.cpp")],
     technique="evaluation of the comparison operators over symbolic objects "
     "that differ in one member; interprocedural provenance of what enters "
     "identifiers; dominance of the parts over the digest",
     note="members that are deliberately not part of the identity are listed "
     "with reasons; library types are assumed to compare by value")


prop("C10", "What is written is read back as what it was",
     "For every form in which descriptions are stored or sent: each part is "
     "read from the key, array position or string position it is written to, "
     "and a part that is set is written whatever the other parts are. This "
     "covers action descriptions (ActionDescription::ToJson/FromJson), "
     "artifact descriptions (every alternative has its own type tag that is "
     "read back as that alternative), tree overlays, results of targets "
     "(TargetResult::ToJson/FromJson, with the values, nodes, results and "
     "artifacts among provided values recorded in the list they are "
     "recognised by), the implied export targets of a target-cache entry, "
     "the tree-structure cache, object infos as string and JSON, names of "
     "ByteStream resources, and server addresses.",
     ["inputs"],
     "all members of the listed classes, for every combination of members "
     "that are set",
     "Round trips of a few samples agree even if two optional parts share a "
     "key or one is dropped when another is unset.",
     ["src/buildtool/common/action_description.hpp",
      "src/buildtool/common/artifact_description.cpp",
      "src/buildtool/common/artifact.hpp",
      "src/buildtool/common/tree_overlay.hpp",
      "src/buildtool/common/remote/remote_common.hpp",
      "src/buildtool/build_engine/expression/target_result.cpp",
      "src/buildtool/storage/target_cache_entry.cpp",
      "src/buildtool/tree_structure/tree_structure_cache.cpp",
      "src/buildtool/execution_api/common/bytestream_utils.cpp"],
     [("ActionDescription::ToJson, FromJson",
       "src/buildtool/common/action_description.hpp"),
      ("SerializeExpression, DeserializeExpression",
       "src/buildtool/build_engine/expression/target_result.cpp"),
      ("ByteStreamUtils::ReadRequest::FromString",
       "src/buildtool/execution_api/common/bytestream_utils.cpp")],
     technique="dataflow from the members of an object to the keys of JSON "
     "values and back, abstract evaluation of writers and readers per member "
     "and per type tag",
     note="the forms listed; protobuf messages are out of reach (not compiled "
     "here)")


prop("C13", "Paths, links and names from descriptions stay inside their place",
     "A path that is absolute or, once normalised, starts with '..' is "
     "refused with an error, or left out where only paths inside are asked "
     "for, before anything is made of it: the subdir of git and archive "
     "repositories, references to source files, modules and trees, the name "
     "of generated blobs, symbolic links and trees, the cwd of actions, the "
     "content of symbolic links defined by rules and SYMLINK, from_subdir, "
     "entries and hard links of archives (and entries reached through "
     "symbolic links of the archive), paths of stages and of action inputs. "
     "Symbolic links that leave their directory are not read from "
     "directories, git trees or git blobs unless asked for, and resolving "
     "links never leaves the tree. File names of foreign files and of the "
     "invocation log contain no slash or null character and are none of "
     "'', '.', '..'. Stages whose paths coincide or lie below each other "
     "are refused.",
     ["inputs"],
     "every value that is absolute, upwards or not a file name, at each of "
     "the places listed, on every path of the code handling it",
     "Tests try a few literal paths at a few of the places; a guard dropped "
     "or weakened for one kind of input, or applied before normalising, "
     "shows only for the hostile value at that place.",
     ["src/utils/cpp/path.hpp",
      "src/buildtool/build_engine/target_map/built_in_rules.cpp",
      "src/buildtool/build_engine/target_map/target_map.cpp",
      "src/buildtool/build_engine/target_map/utils.cpp",
      "src/buildtool/build_engine/expression/evaluator.cpp",
      "src/buildtool/build_engine/base_maps/source_map.cpp",
      "src/buildtool/build_engine/base_maps/json_file_map.hpp",
      "src/buildtool/file_system/file_system_manager.hpp",
      "src/buildtool/file_system/git_cas.cpp",
      "src/buildtool/file_system/git_repo.cpp",
      "src/buildtool/file_system/git_tree.cpp",
      "src/buildtool/file_system/symlinks/resolve_symlinks_map.cpp",
      "src/buildtool/execution_api/bazel_msg/directory_tree.cpp",
      "src/utils/archive/archive_ops.cpp",
      "src/other_tools/utils/parse_archive.cpp",
      "src/other_tools/repo_map/repos_to_setup_map.cpp",
      "src/other_tools/just_mr/launch.cpp"],
     [("PathIsNonUpwards, PathIsConfined, IsValidFileName",
       "src/utils/cpp/path.hpp"),
      ("tree_conflict, artifacts_tree",
       "src/buildtool/build_engine/target_map/utils.cpp"),
      ("ArchiveOps::ExtractArchive", "src/utils/archive/archive_ops.cpp"),
      ("GitCAS::ReadObject", "src/buildtool/file_system/git_cas.cpp"),
      ("ResolveKnownEntry",
       "src/buildtool/file_system/symlinks/resolve_symlinks_map.cpp")],
     technique="abstract evaluation (path-sensitive, interprocedural over "
     "clang control-flow graphs) of the handling functions with values that "
     "violate the condition; uses reached by such a value are reported",
     note="all paths within the state bound of the engine; places listed in "
     "sa/checks/c13_paths.py")


prop("C08", "Absent values and null pointers are never read",
     "On every path, a value that may be absent is tested before it is read: "
     "the content of a std::optional or of an expected result is accessed only "
     "where it was found present (or was just filled); a pointer that a "
     "function of this repository may return as null (a lookup of a "
     "repository, of a root, of a tree entry, of a graph node, a failed "
     "evaluation or parse, a temporary directory that could not be created), "
     "or that std::get_if or getenv returned, is dereferenced only where it "
     "was found non-null; and the iterator a find returned is dereferenced "
     "only where it was compared with the end. What a function reads of its "
     "parameters without a test is tested by its callers. So malformed "
     "project descriptions, missing configuration entries and failed lookups "
     "lead to an error message and never to a crash.",
     ["inputs"],
     "every path through every function of the repository that reads an "
     "optional, a pointer that may be null or the result of a lookup",
     "Which value is absent depends on the project description, the store "
     "and the file system; a test dropped or weakened shows only for the one "
     "input that lacks just that value, and then as undefined behaviour.",
     ["src/other_tools/just_mr/utils.cpp", "src/other_tools/just_mr/rc.cpp",
      "src/buildtool/build_engine/target_map/built_in_rules.cpp",
      "src/buildtool/build_engine/target_map/export.cpp",
      "src/buildtool/file_system/file_root.hpp",
      "src/buildtool/storage/target_cache_entry.cpp"],
     [("ResolveRepo", "src/other_tools/just_mr/utils.cpp"),
      ("GenericRule, ConfigureRule, InstallRule",
       "src/buildtool/build_engine/target_map/built_in_rules.cpp"),
      ("ExportRule", "src/buildtool/build_engine/target_map/export.cpp"),
      ("FileRoot::DirectoryEntries",
       "src/buildtool/file_system/file_root.hpp"),
      ("ReadJustMRRC", "src/other_tools/just_mr/rc.cpp"),
      ("TargetCacheEntry::FromTarget",
       "src/buildtool/storage/target_cache_entry.cpp")],
     technique="path-sensitive nullness analysis of the clang control-flow "
     "graphs (abstract states per path, nullable-result summaries of all "
     "repository functions, preconditions pushed to the callers)",
     note="about 1300 reads; a dozen exemptions keyed by file and callee, "
     "with reasons, in sa/checks/c08_absent.py")


prop("C20", "Objects are filed under the identifier of their own content",
     "What is stored in an object store, in memory or on disk, is filed under "
     "the hash of exactly the content stored, unchanged in between: the key "
     "of an object store entry is the hash of the value, an artifact blob's "
     "digest that of the content it carries and a digest's size the size of "
     "that content; the hash is the one for the kind of the object, so trees "
     "are hashed as trees and files as files, with the tag of the kind "
     "before the content. A large object is recorded as the list of its "
     "parts, in order, only if splitting it came to its end and each part "
     "was stored, and under the identifier of the whole. What a rule claims "
     "to be a known artifact is what it also hands on for upload.",
     ["inputs"],
     "all paths from content to store key, for all kinds of objects and both "
     "hash functions",
     "Native mode hashes files and trees differently and compatible mode "
     "does not, large objects are split only above a size and at data "
     "dependent places, and an object under the wrong name is noticed only "
     "when somebody else asks for it.",
     ["src/buildtool/storage/local_cas.hpp",
      "src/buildtool/storage/large_object_cas.tpp",
      "src/buildtool/file_system/object_cas.hpp",
      "src/buildtool/common/artifact_blob.cpp",
      "src/buildtool/common/artifact_digest_factory.cpp",
      "src/buildtool/crypto/hash_info.cpp",
      "src/buildtool/crypto/hash_function.cpp",
      "src/buildtool/build_engine/target_map/target_map.cpp"],
     [("ObjectCAS::StoreBlob", "src/buildtool/file_system/object_cas.hpp"),
      ("LargeObjectCAS::Split",
       "src/buildtool/storage/large_object_cas.tpp"),
      ("ArtifactBlob", "src/buildtool/common/artifact_blob.cpp"),
      ("HashFunction", "src/buildtool/crypto/hash_function.cpp")],
     technique="provenance analysis of store keys and contents, lifted "
     "through wrappers, with path rules for splitting",
     note="numeric offsets of chunks are not decided; splicing and uplinking "
     "are not part of the analysed (bootstrap) configuration")


prop("C17", "Compaction and repository collection remove only what they may",
     "Compaction of the object store removes a file only if its name cannot "
     "be that of an object, or the same object is recorded in the storage of "
     "large objects of its kind, or it was just split into at least two "
     "parts that are recorded under its digest; each kind of object is "
     "treated by the function for that kind. The collection of repository "
     "roots moves generations only under the exclusive lock, from the oldest "
     "to the youngest so that none is moved onto another, keeps the youngest "
     "if only old ones are dropped, removes only what was moved away and "
     "that only under the lock; a lock that cannot be taken ends it.",
     ["inputs", "schedules"],
     "all control-flow paths to every removal and renaming; all numbers of "
     "generations by the same loop, evaluated for three",
     "The tests that can run here do not collect or compact at all, and a "
     "wrong removal shows only for particular sizes, names or kinds of "
     "objects, or when another process is using the storage.",
     ["src/buildtool/storage/compactifier.cpp",
      "src/buildtool/storage/compactification_task.cpp",
      "src/buildtool/storage/repository_garbage_collector.cpp",
      "src/utils/cpp/file_locking.cpp"],
     [("Compactifier", "src/buildtool/storage/compactifier.cpp"),
      ("CompactifyConcurrently",
       "src/buildtool/storage/compactification_task.cpp"),
      ("RepositoryGarbageCollector::TriggerGarbageCollection",
       "src/buildtool/storage/repository_garbage_collector.cpp"),
      ("LockFile", "src/utils/cpp/file_locking.cpp")],
     technique="guard analysis of all removals and renamings by abstract "
     "interpretation, lock typestate, evaluation of the loop of moves",
     note="the collector of the build storage needs protobuf code and is not "
     "part of the analysed build; the loop is evaluated for 3 generations")


prop("C14", "Child processes run what was asked for and report how they ended",
     "A command is executed with the arguments, environment, and working "
     "directory asked for, with an empty standard input of its own and its "
     "standard output and error in the files of those names. A process "
     "forked from just never returns into the code of the parent; it ends "
     "with a failing exit code if it could not be set up, if the command "
     "could not be executed, or if its task failed, and does nothing in "
     "between that can wait for a lock. The parent waits for the process "
     "until it has ended (not just stopped) and reports its exit code, or "
     "128 plus the signal that killed it; failing to fork or wait is never "
     "reported as success.",
     ["inputs", "schedules", "fault_sequences"],
     "all ways a child process can end or fail to start, all failing steps "
     "of its set-up",
     "Tests run commands that exit normally; a stopped or killed child, a "
     "failing chdir or fork, and a lock held by another thread at the fork "
     "need faults at particular points.",
     ["src/buildtool/system/system_command.hpp",
      "src/buildtool/system/system.cpp",
      "src/buildtool/file_system/file_system_manager.hpp"],
     [("SystemCommand::ForkAndExecute",
       "src/buildtool/system/system_command.hpp"),
      ("FileSystemManager::CopyFile with fd_less",
       "src/buildtool/file_system/file_system_manager.hpp")],
     technique="static analysis: abstract evaluation of the functions that "
     "fork for the child, a failed fork, each failing set-up step and each "
     "wait status; data flow to exec",
     note="The commands' own behaviour and remote execution are out of "
     "scope.")


prop("C02", "Store entries appear complete, in one step, and never change",
     "An entry of the store becomes visible in one atomic step, from a file "
     "of the adding thread's own (or one handed over to it) that was written "
     "completely and already has its read-only permissions, its permission "
     "to execute and, where asked for, its fixed time. Nothing is done to "
     "the file of an entry afterwards; where the first writer wins, an "
     "existing entry is never replaced, where the last one wins, it is, "
     "without a moment in which there is none. Success is reported only if "
     "the entry is there.",
     ["schedules", "crash_points", "fault_sequences"],
     "all interleavings of threads and processes adding the same entry, all "
     "points at which one of them may die or fail, for every kind of entry "
     "and both modes of storage",
     "Tests add entries one after another from one process and look at them "
     "afterwards; a half-written or replaced entry is only seen at the right "
     "moment.",
     ["src/buildtool/file_system/file_storage.hpp",
      "src/buildtool/file_system/file_system_manager.hpp",
      "src/buildtool/file_system/atomic.cpp",
      "src/buildtool/execution_api/common/ids.hpp",
      "src/buildtool/storage/fs_utils.cpp"],
     [("FileStorage::AtomicAddFromFile, StageFile",
       "src/buildtool/file_system/file_storage.hpp"),
      ("FileSystemManager::Rename with no_clobber, CreateFileHardlinkAs",
       "src/buildtool/file_system/file_system_manager.hpp"),
      ("FileSystemAtomic::WriteFile",
       "src/buildtool/file_system/atomic.cpp"),
      ("CreateUniquePath", "src/buildtool/execution_api/common/ids.hpp")],
     technique="static analysis: typestate of files (content, permissions, "
     "time, visible) by abstract evaluation of the adding functions down to "
     "the system calls, names of files followed symbolically; data flow of "
     "process and thread into temporary names",
     note="link, rename and exclusive open are taken to be atomic; power "
     "failures are out of scope.")


prop("C15", "Content from a remote side is verified before it is used",
     "Whatever is received from a remote execution, content or serve "
     "endpoint is checked against the digest it was asked for before it is "
     "stored or used.",
     ["inputs", "fault_sequences"],
     "all answers of a remote side",
     "The answers of a misbehaving remote side are not among the tests'.",
     ["src/buildtool/execution_api/remote"],
     [("BazelNetworkReader",
       "src/buildtool/execution_api/remote/bazel/bazel_network_reader.hpp")],
     na="The sources need protobuf and gRPC headers and generated code, "
     "which are not in this sandbox: there is no type-checked program to "
     "analyse, and they are not part of what is built or tested here.")


prop("C18", "Garbage collection keeps what was used since the last but one",
     "An artifact, action or target that was used since the last but one "
     "rotation is kept together with all it refers to.",
     ["histories", "schedules"],
     "all sequences of builds and collections",
     "The tests collect garbage after a handful of builds.",
     ["src/buildtool/storage/garbage_collector.cpp",
      "src/buildtool/storage/uplinker.cpp"],
     [("GarbageCollector::TriggerGarbageCollection",
       "src/buildtool/storage/garbage_collector.cpp")],
     na="What an entry refers to is decided by the content of trees and "
     "cached results at run time, and the closure over several generations "
     "is a property of histories that no flow argument over the source "
     "bounds; the code also needs protobuf and is compiled out of the "
     "program that can be built here. Removal and its locks are in C17.")


prop("C23", "Evaluating an expression yields what its definition says",
     "Each built-in function and rule yields the value that the "
     "documentation of the expression language defines for its arguments.",
     ["inputs"],
     "all expressions and environments",
     "The tests evaluate some expressions per function.",
     ["src/buildtool/build_engine/expression"],
     [("Evaluator", "src/buildtool/build_engine/expression/evaluator.cpp")],
     na="The definition is prose about values of unbounded structure; "
     "agreement with it is functional correctness, which needs an executable "
     "specification to compare with (testing) or a proof, not an analysis "
     "of flows. That functions of expressions keep failures and absent "
     "values apart is in C06 and C08.")


prop("C24", "A build is correct: equal to building everything from scratch",
     "The artifacts of an incremental build are those that executing all "
     "actions anew would yield, if the actions are functions of their "
     "declared inputs.",
     ["histories", "inputs"],
     "all sequences of changes to sources and builds",
     "Tests rebuild a few examples after a few changes.",
     ["src/buildtool/execution_engine", "src/buildtool/build_engine"],
     [("ExecutorImpl::ExecuteAction",
       "src/buildtool/execution_engine/executor/executor.hpp")],
     na="Whether two actions with equal keys yield equal outputs depends on "
     "the actions themselves; what the source decides of it, that keys "
     "cover all they stand for, that entries are what their names say and "
     "that failures are not cached, is decided by C09, C20 and C01.")


prop("C25", "Everything stored survives a crash of the machine",
     "After a power failure, every entry of the stores is either complete "
     "or absent.",
     ["crash_points"],
     "all points at which the machine may lose power",
     "A test cannot take the power away.",
     ["src/buildtool/file_system/file_storage.hpp"],
     [("FileStorage", "src/buildtool/file_system/file_storage.hpp")],
     na="The project does not claim it: no file is ever synchronised to "
     "disk, by design, as the store is a cache. Crashes of a process are "
     "in C02.")


prop("C26", "Digests are the hashes they are said to be",
     "The digest of a content is its SHA-1, SHA-256 or SHA-512, or its git "
     "identifier.",
     ["inputs"],
     "all contents",
     "Tests compare with known digests of a few strings.",
     ["src/buildtool/crypto"],
     [("Hasher", "src/buildtool/crypto/hasher.cpp")],
     na="The arithmetic is the crypto library's, outside the source; that "
     "all of the content is fed to it once, framed as git does, is in C09 "
     "and C20.")


prop("C19", "Options given to just-mr reach just, as the options they are",
     "The command line on which just-mr executes just has, for every option "
     "of just-mr that the subcommand of just also has, that option with the "
     "value that was given (the field it sets in just-mr is the one this "
     "option sets in just) whenever it was given, whatever other options were "
     "or were not given, and not if it was not; it has no option that the "
     "subcommand does not know; and the arguments of the user for just are "
     "handed on, after the options. Exempt: -j and --main, which concern "
     "just-mr itself, and options that only make sense together with the "
     "address of remote execution or the directory for invocation logs.",
     ["inputs", "configurations"],
     "all subcommands just-mr knows; each option given with all others given, "
     "with none of them given, and not given",
     "No test runs the launcher: a wrong table entry, a swapped field or a "
     "nested condition makes just stop with an argument error, or silently "
     "ignore what was asked for, for one combination of options.",
     ["src/other_tools/just_mr/launch.cpp", "src/other_tools/just_mr/utils.hpp",
      "src/other_tools/just_mr/cli.hpp", "src/buildtool/common/cli.hpp",
      "src/buildtool/common/retry_cli.hpp", "src/buildtool/main/cli.cpp"],
     [("CallJust", "src/other_tools/just_mr/launch.cpp"),
      ("kKnownJustSubcommands", "src/other_tools/just_mr/utils.hpp"),
      ("ParseCommandLineArguments", "src/buildtool/main/cli.cpp")],
     technique="abstract interpretation of the launcher, compared with the "
     "options declared to the command line parsers",
     note="the parsing of a value's text is not compared; options given to "
     "just-mr by its configuration file are the same fields")


prop("C12", "Type codes, git modes, archive formats and store layout agree",
     "The encodings of the finitely many kinds of object (file, executable, "
     "tree, symbolic link) as letters, git modes and permission bits are "
     "mutually inverse and are the ones git defines; every supported archive "
     "format is read with the container and compression it is written with, "
     "and the 'resolve special' names map back to themselves. Each kind of "
     "stored object, in each hash mode, lives in a directory of its own "
     "(only blobs and trees coincide, and only in compatible mode) and is "
     "looked up in the store it was written to.",
     ["inputs", "configurations"],
     "all enumerators of the object, archive, hash and pragma kinds, both "
     "hash modes, all supported and some unsupported git modes",
     "The tests exercise most pairs in one direction and on one mode only; a "
     "swapped row shows only for the kind and mode that hits it.",
     ["src/buildtool/file_system/object_type.hpp",
      "src/buildtool/file_system/git_repo.cpp",
      "src/utils/archive/archive_ops.cpp",
      "src/buildtool/storage/config.hpp",
      "src/buildtool/storage/local_cas.hpp",
      "src/buildtool/file_system/symlinks/pragma_special.hpp"],
     [("ToChar/FromChar, Is*Object",
       "src/buildtool/file_system/object_type.hpp"),
      ("GitFileModeToObjectType, ObjectTypeToPerm",
       "src/buildtool/file_system/git_repo.cpp"),
      ("EnableReadFormats/EnableWriteFormats",
       "src/utils/archive/archive_ops.cpp"),
      ("CreateGenerationConfig", "src/buildtool/storage/config.hpp"),
      ("LocalCAS accessors", "src/buildtool/storage/local_cas.hpp")],
     technique="constant propagation of every enumerator over the extracted "
     "control-flow graphs; tables compared",
     level="proof",
     note="exhaustive over the finite domains; the git modes and archive "
     "formats are the external specification")


prop("C01", "A failed file, process, git or archive operation is never success",
     "Whenever a file-system or process system call, a std::filesystem "
     "operation, an output stream, or a git, archive, hash or transfer library "
     "call made by a function fails, the function reports failure to its "
     "caller (false, an empty optional or expected, a null pointer, a nonzero "
     "code or an exception), and so does every caller above it; a map's "
     "consumer sets no value then. Only operations with a defined fallback "
     "(copy instead of hard link, cache miss, cleanup) are excepted.",
     ["inputs", "fault_sequences", "histories"],
     "every call site of a fallible primitive, every fault there, and all "
     "control-flow paths from it to the end of every function above",
     "Tests cannot make rename, write, close or a git call fail at will, let "
     "alone at each of the hundreds of call sites and on every path.",
     ["src/buildtool/file_system/file_system_manager.hpp",
      "src/buildtool/file_system/file_storage.hpp",
      "src/buildtool/file_system/atomic.cpp",
      "src/buildtool/file_system/git_repo.cpp",
      "src/buildtool/system/system_command.hpp",
      "src/buildtool/storage/large_object_cas.tpp",
      "src/utils/archive/archive_ops.cpp",
      "src/other_tools/git_operations/git_repo_remote.cpp"],
     [("FileSystemManager write, copy, rename, link",
       "src/buildtool/file_system/file_system_manager.hpp"),
      ("FileStorage::AtomicAdd*, StageFile",
       "src/buildtool/file_system/file_storage.hpp"),
      ("GitRepo operations", "src/buildtool/file_system/git_repo.cpp"),
      ("SystemCommand::ForkAndExecute",
       "src/buildtool/system/system_command.hpp")],
     technique="interprocedural typestate analysis (failure of a call "
     "followed to every return value) over the control-flow graphs",
     note="all call sites in the analysed units; one failure at a time; "
     "exceptions listed in the check with reasons")


prop("C03", "Handles are released exactly once, temporary files are removed",
     "Every stream, descriptor, buffer and object obtained from libc, "
     "libgit2, libarchive or libcurl is released on every path, once, by the "
     "function for its kind, is never used afterwards and never released if "
     "it was not obtained; a smart pointer's deleter does that, and a class "
     "that owns a handle keeps exactly one owner through destruction, moves "
     "and copies. A temporary file or directory is removed or renamed on "
     "every path. A library set up is shut down if and only if that "
     "succeeded.",
     ["fault_sequences", "inputs"],
     "every place that obtains a handle, and all control-flow paths from it "
     "including those of failing operations",
     "A leak or double release happens on an error path that needs a failing "
     "library call, and usually shows only after many of them.",
     ["src/buildtool/file_system/git_repo.cpp",
      "src/buildtool/file_system/git_cas.cpp",
      "src/buildtool/file_system/atomic.cpp",
      "src/utils/cpp/file_locking.cpp",
      "src/utils/cpp/tmp_dir.cpp",
      "src/utils/archive/archive_ops.cpp",
      "src/other_tools/utils/curl_url_handle.cpp",
      "src/other_tools/git_operations/git_config_settings.cpp",
      "src/buildtool/system/system_command.hpp"],
     [("tree_closer and the other deleters",
       "src/buildtool/file_system/git_utils.cpp"),
      ("LockFile", "src/utils/cpp/file_locking.cpp"),
      ("TmpDir", "src/utils/cpp/tmp_dir.cpp")],
     technique="typestate analysis of handles over the control-flow graphs, "
     "ownership rules for deleters and classes",
     note="exceptions from memory allocation are not followed")


prop("C04", "State shared between threads is accessed under its lock",
     "A field of a class that owns a mutex is accessed only with that mutex "
     "held, exclusively for writing and at least shared for reading, and a "
     "decision taken under the lock is acted on before it is released. A "
     "field without a lock that several threads use is atomic or not "
     "written after publication; a test of an atomic flag or counter and its "
     "change are one atomic operation. References and iterators into guarded "
     "containers do not outlive the lock.",
     ["schedules"],
     "every access to every field of the classes with locks or atomics, on "
     "every control-flow path, whatever the other threads do meanwhile",
     "Races need a particular interleaving; the tests run few threads on "
     "small graphs and pass with most locks removed.",
     ["src/buildtool/multithreading/async_map_node.hpp",
      "src/buildtool/multithreading/async_map.hpp",
      "src/buildtool/multithreading/async_map_consumer.hpp",
      "src/buildtool/multithreading/notification_queue.hpp",
      "src/buildtool/execution_engine/dag/dag.hpp",
      "src/buildtool/build_engine/target_map/result_map.hpp",
      "src/buildtool/progress_reporting/task_tracker.hpp",
      "src/utils/cpp/file_locking.cpp"],
     [("AsyncMapNode", "src/buildtool/multithreading/async_map_node.hpp"),
      ("NotificationQueue",
       "src/buildtool/multithreading/notification_queue.hpp"),
      ("TaskTracker", "src/buildtool/progress_reporting/task_tracker.hpp"),
      ("ResultTargetMap",
       "src/buildtool/build_engine/target_map/result_map.hpp")],
     technique="lock-set dataflow over the control-flow graphs with guards "
     "inferred per field; escape and atomicity rules",
     note="guards of fields are those held at most accesses; functions used "
     "by one thread only are excepted in the check with reasons")


prop("C05", "Threads never wait for each other forever; no queued task is lost",
     "Locks are acquired in an order without cycles, also through callbacks, "
     "and never twice. Whatever a thread waits for is changed under the lock "
     "and notified on every path. The workload counts every queued task and "
     "running thread exactly; a task queued is put into exactly one queue and "
     "a task taken is run, unless shutting down; threads are told to stop "
     "and joined before what they use is destroyed.",
     ["schedules"],
     "all pairs of locks, all waits, notifications and queue operations, on "
     "all control-flow paths and for any interleaving",
     "A lost wakeup, a deadlock or a dropped task needs a rare interleaving "
     "and then hangs; a passing run says nothing about the others.",
     ["src/buildtool/multithreading/notification_queue.hpp",
      "src/buildtool/multithreading/task_system.cpp",
      "src/buildtool/multithreading/task_system.hpp",
      "src/buildtool/multithreading/atomic_value.hpp",
      "src/utils/cpp/atomic.hpp",
      "src/buildtool/main/analyse.cpp"],
     [("WaitableZeroCounter, NotificationQueue",
       "src/buildtool/multithreading/notification_queue.hpp"),
      ("TaskSystem::Run, QueueTask, Shutdown",
       "src/buildtool/multithreading/task_system.cpp"),
      ("AtomicValue::SetOnceAndGet",
       "src/buildtool/multithreading/atomic_value.hpp")],
     technique="lock-order graph and path-sensitive accounting of locks, "
     "notifications and queued tasks over the control-flow graphs",
     note="locks are distinguished by class and field, not by object")

prop("C06", "Every requested computation answers exactly once",
     "A function that is given a setter for its result calls it once, or "
     "reports a fatal error to its logger, or hands both on to exactly one "
     "continuation that does, on every path; it never sets after a fatal "
     "error and never sets twice. A logger wrapped around another passes the "
     "message and the fatal flag on. A function that takes a logger and "
     "returns a possibly failing result reports a fatal error whenever it "
     "fails, and none when it succeeds.",
     ["inputs", "fault_sequences"],
     "every function and continuation that is given a setter, a logger or "
     "both, on all its control-flow paths",
     "A missing answer shows as a build that ends without result or reason, "
     "and only on the error path concerned; few of the hundreds of error "
     "paths are reached by tests.",
     ["src/buildtool/build_engine/target_map/target_map.cpp",
      "src/buildtool/build_engine/target_map/export.cpp",
      "src/buildtool/build_engine/target_map/built_in_rules.cpp",
      "src/buildtool/build_engine/base_maps/json_file_map.hpp",
      "src/other_tools/ops_maps/critical_git_op_map.cpp",
      "src/other_tools/git_operations/git_ops_types.hpp",
      "src/other_tools/git_operations/git_repo_remote.cpp",
      "src/buildtool/file_system/symlinks/resolve_symlinks_map.cpp"],
     [("withTargetsFile, withRuleDefinition",
       "src/buildtool/build_engine/target_map/target_map.cpp"),
      ("CreateJsonFileMap",
       "src/buildtool/build_engine/base_maps/json_file_map.hpp"),
      ("CriticalGitOp guards",
       "src/other_tools/ops_maps/critical_git_op_map.cpp")],
     technique="path-sensitive counting of answers over the control-flow "
     "graphs, following continuations and callees through summaries",
     note="exceptional edges are not followed; units needing protobuf or gRPC "
     "are not analysed")


prop("C21", "Each node of a map or graph is processed once, its waiters run",
     "There is one node per key; whoever asks for it first, and only they, "
     "starts its computation. A waiter registered with a node is run exactly "
     "once, after all it waits for has a value, or its failure function is, "
     "when that node fails, even if it failed before being asked. An action "
     "or artifact of a graph is visited once, executed only after all its "
     "inputs are available, and a request for one already discovered is not "
     "lost. Results of queued tasks are read only after these have finished.",
     ["schedules", "inputs"],
     "all control-flow paths of the map, node, consumer and traversal code, "
     "for any interleaving of tasks",
     "Lost or doubled notifications need a node to become ready or fail "
     "between two steps of another thread; the tests' graphs are small and "
     "fast.",
     ["src/buildtool/multithreading/async_map.hpp",
      "src/buildtool/multithreading/async_map_node.hpp",
      "src/buildtool/multithreading/async_map_consumer.hpp",
      "src/buildtool/execution_engine/dag/dag.hpp",
      "src/buildtool/execution_engine/traverser/traverser.hpp"],
     [("AsyncMapNode", "src/buildtool/multithreading/async_map_node.hpp"),
      ("AsyncMapConsumer::ConsumeAfterKeysReady",
       "src/buildtool/multithreading/async_map_consumer.hpp"),
      ("AsyncMap::GetOrCreateNode",
       "src/buildtool/multithreading/async_map.hpp"),
      ("NodeTraversalState", "src/buildtool/execution_engine/dag/dag.hpp"),
      ("Traverser", "src/buildtool/execution_engine/traverser/traverser.hpp")],
     technique="typestate and accounting rules over the control-flow graphs "
     "of the scheduling classes, containers tracked symbolically",
     note="the rules are stated for the roles of the classes' fields, found "
     "from their types and uses")


def main():
    P.sort(key=lambda x: x[0]["id"])
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as fd:
        for r, _, _ in P:
            assert len(r["title"]) <= 80, r["title"]
            fd.write(json.dumps(r) + "\n")
    m = {"version": 1, "setup_cmd": "python3 sa/facts.py",
         "checks": [c for _, c, _ in P if c],
         "not_applicable": [{"property": r["id"], "reason": na}
                            for r, c, na in P if not c]}
    for r, c, na in P:
        assert c or na, r["id"]
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as fd:
        json.dump(m, fd, indent=1)
        fd.write("\n")
    print(len(P), "properties", len(m["checks"]), "checks")


if __name__ == "__main__":
    main()
