"""Writes /verif/properties.jsonl (kept as a script only so the long records stay reviewable)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": list(observe), "hook_needed": hook}})
V="sandfs/vfs.py"; S="sandfs/shell.py"; N="sandfs/nodes.py"; A="sandfs/adapters.py"
p("C01","Interleaved sandbox operations match a sequential filesystem model",
 "Whatever sequence of file and directory operations any number of interleaved agents issue against one sandbox (write, append, read, touch, mkdir, remove, move, copy, cd, listing, walking, globbing, existence and version queries, through the API or the shell commands), every answer or refusal and the tree left behind are those of a simple sequential filesystem model. No operation loses, duplicates or alters a file or directory it was not asked to touch. This includes operations on other paths that run while one agent's operation is waiting inside a content provider, directory provider, hook or host process.",
 ["histories","schedules","inputs"],"for every operation history, every interleaving of agents at provider/hook/host-process waits, all paths (relative, '..', odd names) and contents",
 "The tests exercise each operation once or twice on a 2-3 node tree and never compose them, never re-enter the tree from a provider or hook, and never check the rest of the tree after an operation.",
 [V,N,S],[("path normalisation and node resolution","VirtualFileSystem._normalize/_resolve_node/_resolve_dir"),("tree surgery","VirtualFileSystem.move/copy/remove/mkdir/write_file"),("child table","VirtualDirectory.add_child/remove_child/iter_children")],
 [("children","name to node table of a directory","VirtualDirectory.children"),("cwd","current directory of the sandbox","VirtualFileSystem.cwd")],
 ["API return values and exceptions","walk/ls/tree/read_file/get_version/exists/glob","SandboxShell.exec stdout"])
p("C02","A failed operation changes nothing and succeeds once the fault clears",
 "When a sandbox operation reports an error (refused policy, version mismatch, name clash, failing provider, storage backend that errors or conflicts) the tree, file versions, working directory, search results and mounted storage are afterwards exactly what they were before the call. The only exceptions are that a recursive removal may stop between whole entries, that a raising notification hook does not undo the change it was notified of, and that a move or copy undone after a storage failure puts stored entries back as the sandbox knew them (possibly with renewed versions) and, if even that fails, may leave extra copies in storage but never loses an entry. Once the fault clears, the same operation succeeds within one attempt, after a sync if the cause was a storage conflict.",
 ["fault_sequences","histories"],"for every operation in every reachable state and every fault at any of its storage, provider or hook calls",
 "Only two tests assert that an exception is raised; none looks at the state afterwards and none makes a provider, hook or storage call fail.",
 [V,N,A],[("check before mutate ordering","write_file/move/copy/remove/mount_storage/sync_storage/restore"),("storage persist before commit","VirtualFileSystem._persist_storage")],
 [],["full tree dump, storage listing, search results before and after a failing call"])
p("C03","Storage mounts mirror the sandbox subtree durably",
 "After every acknowledged write, append, touch, move, copy or removal in, into or out of a storage mount, the storage backend holds exactly the files, contents and versions that the sandbox shows under that mount, so a fresh sandbox mounting the same backend after a crash at any point sees every acknowledged change and no half-applied one (an interrupted move may leave both copies, never neither). Syncing a mount brings its subtree to the backend's current contents, keeps the access policies and metadata of files that still exist, and changes nothing outside the mount. Nested mounts keep their own entries, each path belonging to its innermost mount.",
 ["histories","crash_points","fault_sequences"],"for every history of operations, external changes, syncs, crashes and restarts over in-memory and host-directory backends, single or nested mounts",
 "Tests write, delete and sync one file once; moves, copies, touches, nested mounts, restarts, policies across sync and failing backends are never combined with a mount.",
 [V,A],[("innermost mount lookup","_find_storage_mount"),("persist / delete through adapter","_persist_storage/_delete_storage_entry"),("reload","_load_storage_mount/sync_storage/mount_storage")],
 [("storage mounts","mount prefix to backend","VirtualFileSystem._storage_mounts"),("entry version","optimistic version kept by the backend","StorageEntry.version")],
 ["StorageAdapter.list/read","a fresh sandbox mounting the backend"])
p("C04","Concurrent writers of shared storage never lose an update",
 "When several sandboxes share a storage backend (one in-memory backend, or separate adapters on one host directory) and their operations interleave in any order, a write to an existing entry is accepted if its sandbox last saw that entry's current stored state, and is otherwise refused as a conflict with the stored content untouched (as long as the entry was not deleted meanwhile; one storage call is the unit of interleaving); a file that appeared in the backend meanwhile is never silently overwritten. Every accepted write advances the file's version by exactly one, versions of a path are never reused while it exists, and a caller-supplied expected version is honoured exactly. A refused writer that syncs and retries without further interference is accepted.",
 ["schedules","histories","fault_sequences"],"for every schedule of clients at storage-call granularity and every history over a shared key set (host-directory changes being recognisable by modification time)",
 "One test makes one external change between two writes; no test runs two sandboxes on one backend.",
 [A,V],[("version check","MemoryStorageAdapter.write/FileSystemAdapter.write"),("mtime based versions","FileSystemAdapter._refresh_version"),("expected version check","VirtualFileSystem._check_version")],
 [("version","per file optimistic version","VirtualNode.version"),("observed mtimes","last modification time seen","FileSystemAdapter._mtimes")],
 ["accepted/refused writes and the sequence of stored values"])
p("C05","Host-directory storage keeps files whole across crashes and disk faults",
 "If the process dies, or the disk reports an error, fills up or cuts a write short, at any point inside a write to or removal from host-directory storage, every file in the directory afterwards holds either its complete previous or its complete new content, and every acknowledged write and removal survives a restart. What is read back through the same or a fresh adapter is character for character what was written, whatever line endings or Unicode text it contains. No leftovers of an interrupted write show up as files of the mount.",
 ["crash_points","fault_sequences","inputs"],"for every operation history, every I/O call at which the process is killed or the call fails, and every encodable text",
 "Tests only write and read short ASCII strings on a healthy disk.",
 [A],[("write path","FileSystemAdapter.write"),("read path","FileSystemAdapter.read/list"),("delete","FileSystemAdapter.delete")],[],
 ["directory contents after a simulated crash, seen by a fresh adapter and a fresh sandbox"])
p("C06","Host-directory storage never reaches outside its root",
 "No path given to host-directory storage, and no symbolic link that appeared inside its directory before the call, makes the adapter or a sandbox mounted on it read, list, create, change or delete anything outside the directory. Such requests are refused, and the remaining entries stay usable.",
 ["inputs","histories","fault_sequences"],"for every path string, and every history in which links to files and directories inside or outside the root appear, move or vanish between operations",
 "One test tries one '../' write; symbolic links, absolute paths, listing and deletion are untested.",
 [A,V],[("resolve and check","FileSystemAdapter._resolve"),("listing","FileSystemAdapter.list")],[],
 ["every simulated disk call with its resolved target","contents returned by read/list/sandbox reads"])
p("C07","Hooks see every committed change exactly once, in order",
 "Every write hook and path hook receives, for each committed change of a file under its prefix by a write, append, touch that creates, removal, move or copy, exactly one event, in commit order, with the right path, kind (create for a file that did not exist, update, delete), resulting content, version and append flag; refused or failed operations, files outside the prefix, mounting, syncing and restoring produce none. Replaying the path events into an empty mirror therefore always reproduces the files under the prefix. A hook that raises makes the call report the error but leaves the committed change in place and later changes notified normally.",
 ["histories","fault_sequences","schedules"],"for every history, any set of hooks and prefixes, hooks that raise or that themselves modify the sandbox",
 "Tests check three events on one file with one hook; moves, copies, recursive removals, several prefixes, storage-loaded files and raising hooks are untested.",
 [V,"sandfs/hooks.py","sandfs/integrations.py"],[("event emission","_emit_write_event/_emit_path_event"),("prefix match","_path_matches_prefix")],
 [("hooks","registered prefixes and callables","_write_hooks/_path_hooks")],["events received by registered hooks","InboxRecorder.events"])
p("C08","Write policies hold against every operation",
 "Until its policy is changed, a read-only file keeps its content and is not removed, overwritten or moved away by itself, an append-only file's content only ever grows at its end, and a read-only directory neither gains nor loses entries, whichever API call, shell command, pipeline, host command or failing backend is involved (mounting, syncing and restoring, by which the embedding application replaces nodes, aside). A copied or restored node carries its own equal policy: changing one node's policy never changes another's. Writable nodes stay usable.",
 ["histories","fault_sequences","schedules"],"for every assignment of policies to files and directories and every history of operations by interleaved agents, including injected faults",
 "Two tests try one overwrite each; removal, move, copy-over, creation in read-only directories, host results, sync and restore are not checked against policies.",
 [V,"sandfs/policies.py",S],[("write guard","_ensure_write_allowed and its call sites"),("policy cloning","_clone_policy")],[("policy","access policy of a node","VirtualNode.policy")],["file contents and listings over time","get_policy"])
p("C09","An agent never sees what its view hides or policy makes unreadable",
 "A shell with a visibility view never outputs the content of a file, nor lists a node, that its view hides (classification, principals, path prefixes, metadata), and no shell outputs the content of a file marked unreadable, through any built-in command, glob, redirection, pipeline, search or search-view path, whatever other agents with wider views ran before on the same sandbox and whatever commands it composes itself (such as copying or moving). The explicit escape hatches python, host, bash and sh are outside this guarantee. Files that are visible and readable stay fully reachable.",
 ["histories","schedules","configurations","inputs"],"for every set of agents with different views, every assignment of policies and metadata, every interleaving of their commands",
 "Tests use one shell, one hidden file and two commands; no test runs two agents, the search view with a view, recursive search over unreadable files, or copies and moves with hidden descendants.",
 [S,V,"sandfs/policies.py"],[("view predicate","VisibilityView.allows/allows_node"),("per command check","SandboxShell._ensure_visible_path"),("filters","ls/tree/find/glob/search")],[("search view tree","results materialised under the search prefix","VirtualFileSystem._build_search_tree")],["stdout and stderr of every command of every agent"])
p("C10","Restoring a snapshot rolls the sandbox back exactly",
 "Restoring a snapshot brings back exactly the tree, contents, versions, policies, metadata, timestamps, mounts and working directory of the moment it was taken, whatever operations, policy changes, mounts, failures or other restores happened in between, and it works any number of times from the same snapshot. Neither later changes to the sandbox nor restoring alter the snapshot, and the storage backends themselves are not written. After a restore the sandbox is fully usable: search, search view, hooks, mounts and syncing keep working.",
 ["histories","fault_sequences"],"for every history before, between and after snapshots and restores, for all policies, providers and mounts",
 "Two tests restore a two-file tree once, without policies, directories, cwd, index, search view or repeated restores.",
 [V],[("capture","VirtualFileSystem.snapshot"),("rebuild","VirtualFileSystem.restore")],[("snapshot","captured nodes, cwd and mounts","VFSSnapshot")],["tree dump equality","behaviour of operations after restore"])
p("C11","Search always reflects the current readable contents",
 "After any history of writes, moves, copies, removals, syncs, restores and failed operations, a search returns exactly the matching lines of the current contents of all files in scope that the policy makes readable and the given view allows, and enabling or disabling the full-text index makes no difference to the result set (files supplied by providers aside). A search-view path shows each agent exactly the current matches it may see, never leftovers of an earlier query or of another agent.",
 ["histories","fault_sequences","schedules"],"for every history with the index enabled at any point, every query (literal, regex, case-insensitive, scoped) and interleaved agents using the search view",
 "The index tests cover one move, copy and removal of one file; directories, storage, restore, failures, policies and repeated search-view queries are not.",
 [V,"sandfs/search.py",S],[("incremental index maintenance","_index_file/_remove_index_entry/_rebuild_index"),("query","FullTextIndex.search and the scan in VirtualFileSystem.search"),("search view","_search_view_provider/_maybe_search_context")],[("indexed files","path to text","FullTextIndex._files")],["VirtualFileSystem.search","search/grep/rg and /@search shell output"])
p("C12","Shell execution always returns a result and stays usable",
 "Executing any command line returns a command result instead of raising, whatever fails underneath (missing paths, policy refusals, failing providers or hooks, storage errors, failing host processes or disks), with a non-zero exit code and a message when something failed. A failing command stops its pipeline and script: nothing after it runs and its redirection target is left untouched. Afterwards the session (working directory, variables, commands, real standard output) is intact and the next command works.",
 ["inputs","fault_sequences","histories"],"for every command line built from the command set with pipes, redirections, globs, variables and several lines, and every fault at any provider, hook, storage, disk or process call",
 "Tests run well-formed commands on a healthy tree; no test fails a provider, storage backend, disk or process under a command, and only a few malformed lines are parsed.",
 [S,"sandfs/shell_parser.py","sandfs/cli.py","sandfs/pyexec.py"],[("dispatcher","SandboxShell.exec/_exec_pipeline/_run_command"),("CLI loop","sandfs.cli._run_shell/_run_exec")],[("env","shell variables","SandboxShell.env")],["CommandResult of every exec call","tree after failing pipelines"])
p("C13","Command allowlist and output limit cannot be bypassed",
 "A shell built with an allowlist, even an empty one, never runs a command whose name is not on it, whether reached through a pipeline, several lines, a variable, or host fallback for unknown names, and a refused command has no effect. With an output limit of N bytes no command line ever returns more than N bytes of UTF-8 output and error text combined, except the short limit notice itself, and the limit does not affect command lines whose commands all stay within it. Both hold when commands fail or providers and host processes produce the output.",
 ["inputs","configurations","fault_sequences"],"for every allowlist, limit, command line and amount or alphabet of output, including error output",
 "Two tests try one blocked command and one oversized ASCII file.",
 [S],[("allowlist check","SandboxShell._run_command"),("limit","SandboxShell._enforce_output_limit")],[("allowed_commands","names that may run","SandboxShell.allowed_commands")],["CommandResult sizes","processes started","handler invocations"])
p("C14","A host command's effect on the sandbox is exactly what the process did",
 "After a host command finishes, the sandbox differs from before exactly by the files and directories the process created, changed or deleted in its materialised copy: untouched files keep content, version and live provider, and changes made by other agents while the process ran are kept. A process that fails or is killed has the changes it made so far applied; if it cannot start, or the disk fails while the copy is made or read back, the sandbox is unchanged. The process runs in the copy of the directory it was started in, with the piped input and the shell's variables; arguments that name paths of the sandbox refer to the copy, all others arrive as they were written. The temporary copy is removed in every case (unless the disk refuses that itself), and protected nodes are not altered.",
 ["schedules","fault_sequences","histories","inputs"],"for every tree (contents with any line endings, empty directories, providers, storage mounts), every sequence of host-side changes, every concurrent agent operation and every process or disk failure",
 "Tests run rm, ls and one redirect with nothing else going on; concurrent changes, type changes, odd contents, failing processes and disks are not covered.",
 [S,V],[("materialise","VirtualFileSystem.materialize/export_to_path"),("merge back","SandboxShell._sync_from_host")],[],["tree dump before/after","what exists on the simulated disk afterwards"])
p("C15","The host is untouched except by explicit exports, which are exact",
 "Sandbox operations other than exports, host commands and host-directory mounts never create, change or delete a host file and never start a process. An export writes exactly the exported subtree's files and directories with their contents beneath the target and nothing outside it, even for hostile names supplied by providers, and raises an error rather than silently leaving something out when the disk fails. A temporary materialisation disappears when its context ends, however it ends.",
 ["histories","inputs","fault_sequences"],"for every operation history, every tree including provider-supplied names, every disk fault during an export",
 "Tests export a three-file tree once to a healthy disk; nothing watches for host effects.",
 [V,N,S],[("in-memory nodes","sandfs/nodes.py"),("export","_export_directory"),("name handling","VirtualDirectory.add_child/instantiate_provided_node")],[],["every simulated disk and process call during each operation"])
p("C16","Provider-backed nodes are lazy, live and recover from failures",
 "A mounted file always reads as what its provider returns at that moment for its current path and metadata until it is overwritten, an append extends the currently provided text, and a mounted directory consults its provider only when first entered or listed and then exactly once. A provider that raises surfaces as a sandbox error naming the cause, leaves no partial children or other change behind, and the next access after it recovers works normally. Providers may themselves read and modify the sandbox while being called.",
 ["fault_sequences","histories","schedules"],"for every sequence of provider results and failures, every history of operations on and around provider nodes, and re-entrant providers",
 "Three tests read one provider each; none fails, changes over time, re-enters the sandbox or is combined with move, copy, append, snapshot or search.",
 [N,"sandfs/providers.py",V],[("content provider call","VirtualFile.read"),("lazy load","VirtualDirectory.ensure_loaded")],[("_loaded","whether the directory provider has run","VirtualDirectory._loaded")],["provider call log","read_file/ls results and exceptions"])
p("C17","Outcomes do not depend on the clock, and timestamps are truthful",
 "With the wall clock standing still, jumping forwards or backwards at any point, the same operations give the same answers, tree, versions, events, storage contents and conflicts, timestamps aside. A node's creation time is the clock when it was created and never changes afterwards; a file's modification time is the clock at its last successful write or touch, is not altered by reads, moves, failed operations or policy changes, and both come back on restore.",
 ["schedules","histories","fault_sequences"],"for every history and every clock behaviour (standstill, forward and backward jumps) at any point",
 "The tests sleep 0.1 s twice with the real clock moving forward.",
 [V,N,A,S],[("timestamps","VirtualNode.created_at/modified_at"),("mtime comparison","FileSystemAdapter._refresh_version")],[],["node timestamps, stat output","differential runs under two clocks"])
p("C18","Separate sandboxes and shells never influence each other",
 "Sandboxes living in one process share nothing: whatever interleaving of operations, mounts, hooks, policies, searches, snapshots and failures is applied to several of them, each behaves exactly as if it were alone. Likewise shells have their own variables, registered commands, allowlist and view, and Python snippets see none of the names, output or altered builtins of other runs.",
 ["schedules","histories"],"for every interleaving of operations on several sandboxes and shells, including operations started from inside another sandbox's provider or hook",
 "Every test builds a single sandbox.",
 [V,N,S,"sandfs/pyexec.py","sandfs/policies.py"],[("per-instance state","dataclass default factories, VirtualFileSystem.__init__"),("fresh globals per run","PythonExecutor.run")],[],["per-sandbox histories against per-sandbox models"])
p("C19","Python snippets cannot reach the host",
 "A Python snippet run through the sandbox cannot read or write host files, start processes or import modules unless the embedding application passes in such a capability.",
 ["programs"],"for every program text",
 "Two tests run one-line prints; the property quantifies over all programs.",
 ["sandfs/pyexec.py"],[("curated builtins","_ALLOWED_BUILTINS")],[],["PythonExecutor.run"])
p("C20","Text utilities compute their documented functions",
 "For every text, head, tail, wc, grep, echo and printf produce the output their options describe, and a command line splits into the pipeline, arguments, assignments and redirections that its quoting describes.",
 ["inputs"],"for every input text, option combination and command line",
 "A dozen example-based tests.",
 [S,"sandfs/shell_parser.py"],[("text commands","_cmd_head/_cmd_tail/_cmd_wc/_search_text/_cmd_printf"),("parser","parse_pipeline")],[],["SandboxShell.exec output","parse_pipeline"])
p("C21","Command-line sessions keep one sandbox each and persist to mounted directories",
 "'sandfs exec' prints exactly the command line's output and error text and exits with its exit code. A 'sandfs shell' session feeds every entered line to one continuing sandbox (files, working directory and variables carry over; the prompt names the working directory), prints exactly its output, survives failing lines, and ends with exit code 0 on exit, quit, :q, end of input or an interrupt. Host directories given with --mount appear at their sandbox paths; whatever a line reported as done is in the host directory afterwards and visible to every later session (no session silently overwrites what it has not seen), however the session ends (quit, interrupt in the middle of a line, death of the process), and interrupted or failing lines leave each host file wholly old or wholly new. Host directories that were not mounted are never touched, and names that are no sandbox commands run on the host only with --host.",
 ["histories","schedules","fault_sequences","crash_points"],"for every sequence of exec runs and interleaved interactive sessions over shared host directories, every outside edit between them, every disk fault, interrupt and process death",
 "One CLI test runs a single exec; nothing covers interactive sessions, several sessions, interrupts or failures.",
 ["sandfs/cli.py",S,A],[("session loop","_run_shell"),("single command","_run_exec"),("mount option","_build_vfs")],[],["standard output and error of main()","exit status","host directory contents"])
pathlib.Path("/verif/properties.jsonl").write_text("".join(json.dumps(x)+"\n" for x in P))
