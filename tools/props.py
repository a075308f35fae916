# Single source of /verif/properties.jsonl and /verif/MANIFEST.json.
# (run: python3 tools/props.py)
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NM = "crates/node-maintainer/src/"
NA = "crates/nassun/src/"
PROPS = []
def P(id, title, statement, over, text, why, files, mech, technique, note, level="exploration", observe=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mech=mech, technique=technique, note=note, level=level,
                      observe=observe or [], state=state or []))

P("R01", "Installed trees satisfy every declared dependency, under any response order",
  "After a successful apply, every package in node_modules (and the project itself) that looks up one of its declared dependencies the way Node does finds a published version of the declared package that satisfies the declared range or tag, with exactly the published content, and node_modules holds nothing that no package needs. This holds whatever order the registry answers in, whatever the concurrency, for cycles, conflicts, aliases, tags and optional dependencies, in hoisted and isolated layout.",
  ["inputs", "schedules", "configurations"],
  "all registries (up to 9 packages x 4 versions with cycles, version conflicts, aliases, tags, scopes), root manifests, response orders, concurrency settings, both layouts",
  "The resolver tests use five fixed graphs with one mocked response order; a placement rule that is only wrong for a conflict under a cycle, or for one arrival order, passes them.",
  [NM+"resolver.rs", NM+"graph.rs", NA+"resolver.rs", NM+"linkers/hoisted.rs", NM+"linkers/isolated.rs"],
  [("conflict-aware placement of a fetched package as high as possible", NM+"resolver.rs place_child"),
   ("reuse of a visible package that satisfies the request", NM+"resolver.rs satisfy_dependency"),
   ("one fetch shared by all dependents waiting for it", NM+"resolver.rs run_resolver")],
  "random registries and response schedules; Node lookup oracle over the installed tree",
  "Runs the real binary against a loopback registry which holds and releases responses in a generated order. Trusts node-semver for range satisfaction (an external crate).")

P("R02", "Version selection agrees with the documented rules",
  "For any package metadata, an exact version selects that version, a tag selects the tagged version, and a range or an empty request selects the default tag's version when the range allows it and otherwise the highest published version the range allows; when nothing matches the command fails and never picks something else. The selected version's own tarball location and integrity are the ones used.",
  ["inputs", "configurations"],
  "all published version sets (with prereleases and build metadata), tag maps (including dangling ones), requests and default tags",
  "The unit tests check the satisfies predicate on hand-picked pairs and never the selection itself; which of several candidates wins depends on the whole version set.",
  [NA+"resolver.rs", NA+"fetch/npm.rs", NA+"client.rs"],
  [("target selection: exact, tag, default tag, max satisfying", NA+"resolver.rs get_resolution"),
   ("default tag option", NA+"client.rs default_tag")],
  "random metadata vs. reference selection model (differential)",
  "Differential against an independent model with its own version parser and comparison; node-semver is only used to decide range membership.")

P("R03", "The lockfile is a fixed point and reproduces the tree",
  "The lockfile written by apply lists exactly the packages installed, each at its place with its version, source and integrity, and parses back to the same content. Applying again, or applying that lockfile to an empty directory under any response order, leaves the lockfile byte-identical and produces the same tree.",
  ["inputs", "histories", "schedules"],
  "all registries, manifests, layouts and repetitions of apply, with and without the old node_modules and the cache",
  "The lockfile tests parse two fixed snippets; a field that is lost or changed on the way back only shows for particular dependency shapes and only on the second run.",
  [NM+"lockfile.rs", NM+"graph.rs", NM+"resolver.rs", NM+"maintainer.rs"],
  [("graph to lockfile", NM+"graph.rs to_lockfile"), ("KDL writer and reader", NM+"lockfile.rs to_kdl/from_kdl"),
   ("placement at the locked path", NM+"resolver.rs place_child")],
  "apply/re-apply fixed point and round-trip over random registries",
  "Compares the lockfile (read by an independent KDL reader), the installed tree and the bytes over repeated runs of the real binary.")

P("R04", "Locked versions stay put when the registry moves on",
  "When new versions are published or tags move after a lockfile was written, applying with that lockfile keeps every locked package that still satisfies its dependents at the locked version, source and place. Changing one dependency in package.json only changes packages that dependency brings in or forces to move, and the result still satisfies every declared dependency.",
  ["inputs", "histories"],
  "all registries, followed by any publication of versions, tag moves and single-dependency manifest edits",
  "No test applies a lockfile against a registry that differs from the one it was made with.",
  [NM+"resolver.rs", NM+"lockfile.rs"],
  [("lockfile lookup along the ancestors before fetching", NM+"resolver.rs satisfy_from_lockfile"),
   ("node from lockfile entry", NM+"lockfile.rs to_package")],
  "metamorphic: registry drift must not change a locked install",
  "Range dependencies only: tags are re-resolved by design.")

P("R05", "npm lockfiles are honoured",
  "Given a package-lock.json (version 2 or 3) written for the project and no orogene lockfile, apply installs exactly the versions and layout it lists, from the locations it lists, even when the registry has newer versions.",
  ["inputs"],
  "all npm lockfiles of valid trees over generated registries (nesting, scopes, optional and dev entries)",
  "The npm lockfile test parses one small snippet and never installs from it.",
  [NM+"lockfile.rs", NM+"resolver.rs", NM+"maintainer.rs"],
  [("npm lockfile reader", NM+"lockfile.rs from_npm"), ("lockfile discovery", NM+"maintainer.rs with_npm_lock")],
  "generated npm lockfiles vs. installed tree (model)",
  "The lockfile is derived from a tree the harness builds itself, not from orogene's own lockfile.")

P("R06", "Install switches only touch what they say",
  "With --lockfile-only node_modules is left alone and the lockfile is what a full apply would have written; with --no-lockfile no lockfile is written or changed; with --locked an apply that would need a lockfile different from the existing one fails and leaves the project unchanged; with applying switched off nothing but the manifest edit happens.",
  ["inputs", "configurations", "histories"],
  "all manifests, registries and lockfile states (absent, current, outdated) combined with every switch",
  "No test runs a command with these switches.",
  ["src/apply_args.rs", "src/commands/add.rs", "src/commands/remove.rs", NM+"resolver.rs"],
  [("switch handling", "src/apply_args.rs execute"), ("mismatch error", NM+"resolver.rs run_resolver")],
  "differential runs with and without each switch over random projects",
  "Filesystem snapshots before and after; the reference is a full apply in a sibling project.")

P("R07", "Resolution does not depend on timing",
  "Resolving the same manifest against the same registry with the same settings gives the same lockfile every time, whatever the order and pace in which the registry answers.",
  ["inputs", "schedules", "configurations"],
  "all registries with conflicting ranges, all response orders, concurrency settings",
  "The resolver tests have one mocked response order, and which of two conflicting versions is placed at the top only depends on timing for particular graphs.",
  [NM+"resolver.rs", NM+"graph.rs"],
  [("packages are placed in the order they were asked for", NM+"resolver.rs run_resolver"),
   ("one fetch shared by all dependents waiting for it", NM+"resolver.rs run_resolver")],
  "random registries resolved repeatedly under generated response schedules (metamorphic)",
  "The registry holds all open requests and releases them in a generated order; five schedules per case.")

P("A01", "Isolated installs converge: history never shows in the result",
  "After any history of applying edited manifests and moving registries in isolated layout, node_modules and every link in it is equivalent to what a fresh install of the final manifest and lockfile would produce: no stale content, no leftover links, store directories or executables.",
  ["histories", "inputs"],
  "all sequences of manifest edits, published versions, lockfile deletions, removed or damaged links and repeated applies",
  "Tests never install twice; stale state needs a particular before and after.",
  [NM+"linkers/isolated.rs", NM+"linkers/mod.rs", NM+"maintainer.rs"],
  [("pruning of store and links", NM+"linkers/isolated.rs prune"), ("store directory naming", NM+"linkers/isolated.rs package_dir_name")],
  "stateful histories; final state compared with a fresh install (differential)",
  "Equivalence is over packages, contents, executability, links (resolved) and bin entries; store directory names are not compared literally.")

P("A02", "Hoisted installs converge, and layouts can be switched",
  "After any history of applying edited manifests in hoisted layout, or of switching between hoisted and isolated layout, node_modules equals what a fresh install of the final manifest and lockfile in the final layout would produce: nothing extraneous, nothing stale, nothing missing, and packages that did not change are not written again.",
  ["histories", "inputs", "configurations"],
  "all sequences of manifest edits, mode switches, stray files and repeated applies",
  "Tests never install twice; stale nested or scoped packages need a particular before and after.",
  [NM+"linkers/hoisted.rs", NM+"linkers/mod.rs", NM+"maintainer.rs"],
  [("comparison of actual and ideal tree, removal of extraneous entries", NM+"linkers/hoisted.rs prune")],
  "stateful histories; final state compared with a fresh install (differential)",
  "Snapshot equality (paths, bytes, link targets, executability), metadata file excluded.")

P("A03", "Isolated layout exposes only declared dependencies",
  "In isolated layout every package can load its own declared dependencies and itself, each in the version meant for it, and the project can load its direct dependencies; nothing can be loaded by a package that neither it nor the project declares, nor by the project if it does not declare it, however the dependency graph is shaped.",
  ["inputs"],
  "all registries and manifests; every (package, other package name) pair of the installed tree",
  "No test installs in isolated layout.",
  [NM+"linkers/isolated.rs"],
  [("store with one node_modules per package", NM+"linkers/isolated.rs store_path_node_modules"), ("symlinks to direct dependencies only", NM+"linkers/isolated.rs link_deps")],
  "random graphs; exhaustive load matrix over the installed tree",
  "Node's lookup through real paths, evaluated for every package and every name in the tree.")

P("A04", "Executables of dependencies are linked, runnable and current",
  "After apply, every executable a dependency declares (one path, a name map, or a directory) is available under its name in the matching .bin directory, runs the file of the version that dependent is meant to use, and is executable; no .bin entry is missing, dangling or left over from a package that is gone, whatever was installed before.",
  ["inputs", "histories"],
  "all bin declarations (string, map, directories.bin, scoped, odd paths, missing files) and install histories in both layouts",
  "Two unit tests check manifest parsing of bins; no test links one.",
  ["crates/oro-common/src/build_manifest.rs", NM+"linkers/hoisted.rs", NM+"linkers/isolated.rs", NM+"linkers/mod.rs"],
  [("bin declaration reader", "crates/oro-common/src/build_manifest.rs"), ("linking", NM+"linkers/mod.rs link_bin"), ("executable bits", NA+"tarball.rs")],
  "random bin declarations and histories; every .bin entry executed and compared with a model",
  "Executes each linked script and compares what it prints with the version the dependent should see.")

P("A05", "Lifecycle scripts run once, in dependency order, and always finish",
  "An apply runs the install scripts of each newly installed package exactly once per script, in the order preinstall, install, postinstall, in the package's directory with its dependencies' executables first on the path once they are linked (install and postinstall), each only after the same script of the packages it depends on has finished, and never more at a time than the script concurrency. Whatever the scripts print, the command terminates for every dependency graph, cyclic ones included, at every concurrency.",
  ["inputs", "schedules", "configurations"],
  "all dependency graphs with scripts (including cycles and packages nested at several places), concurrency limits, script durations",
  "The script crate's tests run one script; ordering, exclusion and termination depend on the whole graph and on timing.",
  [NM+"linkers/mod.rs", NM+"linkers/hoisted.rs", NM+"linkers/isolated.rs", "crates/oro-script/src/lib.rs"],
  [("waiting for dependencies' scripts", NM+"linkers/mod.rs run_scripts"), ("script runner environment", "crates/oro-script/src/lib.rs")],
  "random graphs with recording scripts; history invariant over the recorded events, deadlock detection",
  "Scripts append start/end events to a file; order, multiplicity and exclusion are checked against the installed tree.")

P("A06", "Script failures stop the install unless the package is optional",
  "When an install script fails, the command fails with an error and leaves lockfile and manifest as they were, and the next apply runs it again; except when the package is only reachable through optional dependencies, in which case the install succeeds and everything else is built. With scripts disabled none runs.",
  ["inputs", "fault_sequences", "configurations"],
  "all graphs with a failing script at any position, any exit code or a missing command, reached through any mix of required and optional dependencies",
  "No test runs a failing lifecycle script through an install.",
  [NM+"linkers/mod.rs", NM+"graph.rs", "src/apply_args.rs"],
  [("optional check", NM+"graph.rs is_optional"), ("script error handling", NM+"linkers/mod.rs run_scripts")],
  "fault injection into generated script graphs; outcome compared with a model",
  "The model marks a package optional when every path from the project to it passes an optional dependency.",
  level="fault_enumeration")

P("A07", "An interrupted run is repaired by the next one",
  "If apply, add or remove is killed at any moment, package.json is either as it was or as it was going to be, never torn or empty, the lockfile stays readable, and the next apply succeeds and leaves node_modules equal to a fresh install, whatever state of extraction, linking, pruning, lockfile and cache the interruption left behind.",
  ["crash_points", "histories"],
  "kills at every class of file-system call of a first or a later apply, add or remove, both layouts, with and without cache, repeated interruptions",
  "No test interrupts an install.",
  [NM+"linkers/hoisted.rs", NM+"linkers/isolated.rs", NM+"maintainer.rs", NA+"tarball.rs", "crates/oro-common/src/write.rs"],
  [("metadata written last", NM+"linkers/mod.rs"), ("existing directories are skipped", NM+"linkers/hoisted.rs extract"), ("atomic writes", "crates/oro-common/src/write.rs")],
  "system calls intercepted by seccomp user notification; kill at a generated call (writes also torn), then re-apply; compared with a fresh install and the uninterrupted run",
  "The process dies, the machine does not; the schedule between the process's threads is the operating system's.",
  level="fault_enumeration")

P("A08", "Network faults are retried or reported, never papered over",
  "Temporary network failures (dropped connections, server errors, throttling) before a response, below the retry limit, do not change the result of an apply; permanent ones make it fail with an error. A failed apply never reports success, never leaves a lockfile or manifest edit behind that a later run could not live with, a response cut off or corrupted on the way is never installed, and the next apply without faults produces the same tree as a fresh install.",
  ["fault_sequences", "inputs"],
  "all assignments of fault kinds and counts to metadata and tarball requests of generated installs",
  "The client tests mock single responses; no test fails a request in the middle of an install.",
  ["crates/oro-client/src/client.rs", "crates/oro-client/src/api/stream_external.rs", NM+"resolver.rs", NM+"linkers/mod.rs"],
  [("retry middleware", "crates/oro-client/src/client.rs"), ("error propagation", NM+"linkers/hoisted.rs extract")],
  "fault sequences on a loopback registry; outcome model and fresh-install differential",
  "Faults are injected per request by the harness's registry. When the registry fails, metadata still in the cache may be used instead.",
  level="fault_enumeration")

P("A09", "Failing file-system operations are reported, never papered over",
  "If a file-system operation of apply, add or remove fails (disk full, missing permission, I/O error), the command either succeeds with the right result or fails with a message, without crashing or hanging; package.json is never torn and unchanged when the command fails, the lockfile stays readable, and the next run without failures gives the same tree as a fresh install.",
  ["fault_sequences", "histories"],
  "failures of every class of file-system call (once, repeatedly, or for everything from some point on) in runs of apply, add and remove",
  "No test makes a file-system call fail.",
  [NM+"linkers/hoisted.rs", NM+"linkers/isolated.rs", NM+"maintainer.rs", NA+"tarball.rs", "crates/oro-common/src/write.rs", "src/lib.rs"],
  [("fallback of copy-on-write copies", NA+"tarball.rs"), ("error propagation", NM+"linkers/mod.rs"), ("debug log", "src/lib.rs")],
  "system calls made to fail by seccomp user notification at generated points; outcome model and fresh-install differential",
  "Only calls of oro itself fail, not those of install scripts; writes to memory-mapped files cannot be made to fail.",
  level="fault_enumeration")

P("X01", "Extraction reproduces the package exactly, however it got there",
  "Extracting a package gives exactly the files of its tarball below the package's top directory, byte for byte and with usable permissions, and the same result whether it comes from the network or the cache, with any extraction mode, and whatever the archive's entry order, header style, empty files, deep paths or top directory name.",
  ["inputs", "configurations", "histories"],
  "all tarballs (ustar, GNU and PAX long names, odd modes, directory entries, duplicates, large and empty files) x cache states x extraction modes",
  "The tarball tests extract one fixture in one mode.",
  [NA+"tarball.rs", NA+"package.rs"],
  [("entry loop and cache index", NA+"tarball.rs extract_from_tarball_data"), ("extraction from the cache", NA+"package.rs extract_from_cache")],
  "random tarballs; differential across cache states and modes against a reference tar reader",
  "In-process through the package library; the reference is the generator's own model of the archive.")

P("X02", "Packages cannot write outside their own directory",
  "Whatever paths, links or entry types a tarball contains and whatever bin or directory names its manifest declares, installing the package creates, changes, deletes or re-permissions nothing outside the directories apply manages in the project and the cache: an entry that would escape is rejected or contained.",
  ["inputs"],
  "all entry names (parent components, absolute paths, separators, long-name headers, links, devices), bin names and bin paths, package names",
  "No test extracts a hostile archive.",
  [NA+"tarball.rs", NM+"linkers/mod.rs", "crates/oro-common/src/build_manifest.rs"],
  [("path normalisation of entries", NA+"tarball.rs"), ("bin path and name normalisation", "crates/oro-common/src/build_manifest.rs")],
  "hostile archive generator; scratch-area snapshot must not change outside the managed directories",
  "Runs as an unprivileged user inside a scratch directory; only that area is observed.")

P("X03", "Content is only accepted when it matches its integrity",
  "A package whose bytes do not match the integrity recorded in the metadata or lockfile (sha512, sha1 or a legacy checksum) is never installed and never enters the cache as that package; the command fails. With matching bytes, or with no integrity at all, it succeeds.",
  ["inputs", "fault_sequences"],
  "all single and multiple corruptions of tarball bytes, truncations and swapped tarballs, all integrity forms, cold and warm cache",
  "The tests check one matching fixture.",
  [NA+"tarball.rs", NA+"package.rs", NA+"resolver.rs"],
  [("checked tarball stream", NA+"tarball.rs"), ("integrity selection", NA+"resolver.rs get_resolution")],
  "corruption injection; accept/reject oracle from an independent digest",
  "Independent digest computation decides which inputs must be accepted.",
  level="fault_enumeration")

P("X04", "A damaged cache heals itself",
  "Whatever files of the content cache are deleted, truncated, overwritten or replaced, an install either produces exactly what a fresh install with an empty cache would, fetching again as needed, or (only if the registry is unavailable) fails; it never installs damaged content, and the following install works from the repaired cache.",
  ["fault_sequences", "histories"],
  "all subsets and kinds of damage to cache files, with verified and unverified extraction modes",
  "No test damages a cache.",
  [NA+"package.rs", NA+"tarball.rs"],
  [("fallback to the network", NA+"package.rs extract_to_dir_inner"), ("removal of the damaged entry", NA+"package.rs clean_from_cache")],
  "generated cache damage; differential against a fresh install",
  "Damage is applied to the files of the cache between runs of the real binary.",
  level="fault_enumeration")

P("X05", "Installed projects cannot damage the shared cache or each other",
  "Whatever a project, its lifecycle scripts or its tools do to installed files (rewrite, append, change permissions, delete), later installs of the same packages into other projects still get the published content, and packages with install scripts are never linked to the cache's own files.",
  ["histories", "configurations"],
  "all sequences of installs and in-place modifications of installed files, both layouts, default extraction",
  "No test installs twice from a shared cache.",
  [NA+"tarball.rs", NA+"package.rs", "src/apply_args.rs"],
  [("copy instead of link for packages with scripts", NA+"tarball.rs should_copy"), ("extraction mode choice", NM+"linkers/mod.rs")],
  "stateful histories over two projects and one cache; content invariant",
  "Default (automatic) settings on the sandbox's filesystem.")

P("M01", "add and remove change exactly the named dependencies",
  "Adding packages records each under its name in the chosen section, with the requested spec or the resolved version and prefix, in no other section, and removing deletes the named entries from every section; everything else in package.json keeps its value, and the tree and lockfile afterwards match the manifest. If the install fails, package.json is unchanged.",
  ["inputs", "histories", "fault_sequences"],
  "all manifests, sequences of add and remove with every section switch and spec kind, with and without failing installs",
  "No test runs add or remove.",
  ["src/commands/add.rs", "src/commands/remove.rs"],
  [("manifest edit then apply then write", "src/commands/add.rs"), ("removal from every section", "src/commands/remove.rs")],
  "stateful command sequences vs. a manifest model",
  "The model computes the expected manifest value after each command.")

P("M02", "Editing package.json preserves its formatting and order",
  "When a command rewrites package.json it keeps the file's indentation (kind and width), trailing newline, key order and all values that were not part of the edit, for every formatting of the file.",
  ["inputs"],
  "all JSON documents, indentation styles, line endings and trailing whitespace",
  "Snapshot tests cover four literal documents.",
  ["crates/oro-pretty-json/src/lib.rs", "src/commands/add.rs", "src/commands/remove.rs"],
  [("indentation and newline detection", "crates/oro-pretty-json/src/lib.rs")],
  "round-trip and formatting invariants over generated JSON documents",
  "Round trip against serde_json with its own emitter as reference.")

P("F01", "Configuration sources are layered with a fixed precedence",
  "For every option the value used is the command line's if given, otherwise the project config file's, then the environment's, then the user config file's, then the default; a value from one source is honoured the same way as on the command line, and settings for one command never change what the user typed for another.",
  ["configurations"],
  "all assignments of option values to the four sources, all option types (flags, negatable flags, strings, numbers, lists, key-value maps)",
  "The config tests check one key with one source at a time.",
  ["crates/oro-config/src/lib.rs", "crates/oro-config/src/kdl_source.rs", "src/lib.rs"],
  [("layering of sources into arguments", "crates/oro-config/src/lib.rs layered_args")],
  "random assignments of options to sources vs. a precedence model",
  "Observes effective options through behaviour and the library's layering function.")

P("F02", "Option and config parsing never crashes",
  "Any value for any structured option (credentials, scope registries, nested key-value settings) and any content of a config file is either accepted with the documented meaning or rejected with an error message; it never aborts the program.",
  ["inputs"],
  "all strings over a grammar-biased alphabet for structured options; arbitrary and mutated KDL documents",
  "Tests parse a handful of valid values.",
  ["src/lib.rs", "crates/oro-config/src/kdl_source.rs", "crates/oro-config/src/lib.rs"],
  [("key-value parsers", "src/lib.rs parse_nested_key_value"), ("KDL config reader", "crates/oro-config/src/kdl_source.rs")],
  "grammar-biased fuzzing with an accept/reject model",
  "Runs the real binary and the config library; a panic or a wrong effective value is a violation.")

P("S01", "Credentials go to the registry they belong to and nowhere else",
  "A request carries exactly the credential configured for the registry that the request's address belongs to (same host and port, path at or below the configured one), in the configured form, and no other; requests to any other address, including tarballs and redirects on other hosts or ports, carry none, and no credential ends up in messages, logs or files of the project.",
  ["inputs", "configurations"],
  "all sets of registries (ports, paths), credential kinds, scope mappings, tarball locations and redirects",
  "Two tests send one request each with one credential.",
  ["crates/oro-client/src/auth_middleware.rs", "crates/oro-client/src/credentials.rs", "src/client_args.rs", "crates/oro-npm-account/src/config.rs"],
  [("credential lookup by address", "crates/oro-client/src/auth_middleware.rs"), ("credential forms", "crates/oro-client/src/credentials.rs")],
  "random registry/credential configurations; every received request checked against a model",
  "Several loopback servers record every request header.")

P("S02", "Scoped packages are fetched from their scope's registry",
  "A package in a scope with its own registry is looked up only there, everything else only in the default registry, for direct, transitive and aliased dependencies and for every command, whatever the form of the registry address (trailing slash, path, port).",
  ["inputs", "configurations"],
  "all scope mappings, registry address forms and dependency graphs mixing scopes and aliases",
  "No test configures a scoped registry.",
  [NA+"fetch/npm.rs", "crates/oro-client/src/api/packument.rs", "src/nassun_args.rs"],
  [("registry choice by scope", NA+"fetch/npm.rs pick_registry"), ("request address", "crates/oro-client/src/api/packument.rs")],
  "random scope maps over several recording registries; request log vs. model",
  "Request logs of several loopback registries are compared with the model.")

P("S03", "login and logout edit only the credentials they are about",
  "Logging in stores the received credential for exactly the chosen registry (and scope) so that following commands use it, logging out removes exactly that registry's credential, and every other setting and comment of the user's config file keeps its meaning, for every sequence of logins and logouts.",
  ["histories", "inputs"],
  "all config files and sequences of login and logout over several registries and scopes",
  "Tests cover setting one value in an empty document.",
  ["crates/oro-npm-account/src/config.rs", "src/commands/login.rs", "src/commands/logout.rs"],
  [("credential editing", "crates/oro-npm-account/src/config.rs")],
  "stateful edit sequences vs. a model of the config file",
  "Library-level edits plus real logins against a loopback registry.")

P("S04", "Requests go through the proxy exactly where configured",
  "With a proxy switched on, every request to a host that isn't excluded goes through it, with the proxy's credentials (as written in its URL, decoded), and every request to an excluded host (--no-proxy-domain, or NO_PROXY when that option isn't given) goes there directly and never reaches the proxy; without a proxy switched on nothing goes through one, whatever the environment says; and registries keep getting their own credentials, and only theirs, either way.",
  ["inputs", "configurations"],
  "all combinations of registries, tarball hosts, proxy URLs, credentials, exclusion lists and places to configure them",
  "No test uses a proxy.",
  ["crates/oro-client/src/client.rs", "src/client_args.rs", "src/lib.rs"],
  [("proxy and exclusions", "crates/oro-client/src/client.rs proxy_url"), ("opt-in", "crates/oro-client/src/client.rs build"), ("options handed over", "src/client_args.rs try_from")],
  "generated registries, proxies and exclusion lists vs. a model of each request's way",
  "Plain HTTP. The dependency reqwest sends proxy credentials to excluded hosts, too: a known finding.")

P("P01", "Package specs parse totally and round-trip",
  "Every string either parses as a package spec or is rejected with an error, never a crash; the kind recognised (registry version, range, tag, alias, directory, git) follows the documented syntax; and printing a parsed spec and parsing it again gives the same spec (dist-tags that begin with a dot, which only the npm: prefix can express, excepted).",
  ["inputs"],
  "all strings over a grammar-biased alphabet plus all specs built from the documented syntax",
  "About sixty literal examples are parsed and none is printed and re-parsed.",
  ["crates/oro-package-spec/src/lib.rs", "crates/oro-package-spec/src/parsers/npm.rs", "crates/oro-package-spec/src/parsers/git.rs", "crates/oro-package-spec/src/parsers/alias.rs", "crates/oro-package-spec/src/parsers/path.rs", "crates/oro-package-spec/src/gitinfo.rs"],
  [("parsers", "crates/oro-package-spec/src/parsers/"), ("printing", "crates/oro-package-spec/src/lib.rs Display")],
  "grammar-based generation with a classification model; mutation fuzzing; print/parse round-trip",
  "In-process; the classification model covers the documented forms.")

P("D01", "Odd registry metadata is tolerated or reported, never fatal",
  "Metadata with missing, null, extra or oddly typed fields, malformed tarball or manifest contents, or no usable version makes the command either work with the usable part or fail with an error; it never crashes or hangs, and a broken version or package does not affect installs that do not need it.",
  ["inputs", "fault_sequences"],
  "all structural mutations of registry documents, package manifests inside tarballs and archives",
  "Tests deserialise well-formed documents.",
  ["crates/oro-common/src/packument.rs", "crates/oro-common/src/manifest.rs", "crates/oro-common/src/build_manifest.rs", NA+"tarball.rs", NM+"linkers/mod.rs"],
  [("lenient deserialisation", "crates/oro-common/src/manifest.rs"), ("error reporting", "crates/nassun/src/error.rs")],
  "structure-aware mutation fuzzing of registry responses and archives",
  "A crash is a panic, an abort or a deadlock of the real binary or the library call.")

P("D02", "A damaged lockfile never breaks or misleads an install",
  "Whatever the contents of the lockfile or of the metadata left in node_modules (truncated, mutated, hand-edited, wrong versions, unknown packages, inconsistent paths), apply, add and remove never crash and touch nothing outside the project: they either fail with an error or end with a tree that satisfies every declared dependency and a lockfile that describes it. (What a lockfile entry says about the very version it names, i.e. its dependencies, tarball and hash, is taken at its word.)",
  ["inputs", "histories"],
  "all textual and structural mutations of valid lockfiles and of installed metadata",
  "Two malformed snippets are not tested; only valid ones are.",
  [NM+"lockfile.rs", NM+"resolver.rs", NM+"maintainer.rs"],
  [("lockfile readers", NM+"lockfile.rs"), ("fallback to resolution", NM+"resolver.rs load_actual"), ("satisfaction check before use", NM+"resolver.rs satisfy_from_lockfile")],
  "mutation of valid lockfiles; tree oracle on whatever apply accepts",
  "Mutations keep the tarball locations and integrities of entries they do not touch.")

P("V01", "view reports the selected version's metadata faithfully",
  "view prints the metadata of exactly the version that the spec selects: its JSON output is the registry's own data for it, its human output never fails or omits the version, licence, dependencies or executables that the metadata has, and an unknown package, version or tag is an error.",
  ["inputs"],
  "all metadata documents (people, licenses, dependencies, bins, dates present or absent) and specs",
  "No test runs view.",
  ["src/commands/view.rs", "crates/oro-common/src/packument.rs", "crates/oro-common/src/manifest.rs"],
  [("rendering", "src/commands/view.rs"), ("version metadata", NA+"fetch/npm.rs metadata")],
  "random metadata; JSON output compared with the source document, text output with a containment model",
  "JSON fidelity is checked on the fields orogene models.")

P("H01", "Windows command shims run the intended file with the intended interpreter",
  "For every script location, shebang line (env, -S, arguments, variables, CRLF, none) and extension, the generated command shims invoke the file relative to themselves with the interpreter and arguments of its shebang and pass all arguments and the exit status on; shims of different names never replace each other, nothing is written through links, and generating them again gives the same files.",
  ["inputs"],
  "all shebang lines and relative locations",
  "Fourteen fixtures are compared with snapshots, which record what the code printed.",
  ["crates/oro-shim-bin/src/lib.rs"],
  [("shebang reader", "crates/oro-shim-bin/src/lib.rs"), ("shim writers", "crates/oro-shim-bin/src/lib.rs")],
  "random shebangs and layouts; sh shim executed, cmd/ps1 shims compared with a model",
  "The cmd and ps1 shims are run by interpreters, in the harness, of the constructs they use, since neither cmd nor PowerShell exists here; sh shims really run, after correcting the two syntax errors listed as known findings.")

P("G01", "Git references and folders stand for the right package",
  "For a git dependency, given by nothing, a branch, a tag, a commit or a semver range over the repository's tags, the package.json that view shows, that resolution follows and locks the dependencies of, and whose name add records, is the one at the commit which git says the reference stands for at that time (for a range, the highest version tag in it, with or without a v or path prefix); a reference that doesn't exist is an error that changes nothing; a folder dependency stands for the folder's package.json wherever oro is run from; reading either never runs scripts or changes the project, and as long as nothing moves, resolving again gives the same lockfile.",
  ["inputs", "histories"],
  "all repositories (branches, tags, semver tags), reference kinds and later commits",
  "One test reads three commits of one repository, with plain tags.",
  [NA+"fetch/git.rs", NA+"fetch/dir.rs", NA+"resolver.rs", "crates/oro-package-spec/src/gitinfo.rs", "crates/oro-package-spec/src/parsers/git.rs"],
  [("clone and checkout", NA+"fetch/git.rs fetch_clone"), ("spec parser", "crates/oro-package-spec/src/parsers/git.rs")],
  "random local repositories over file and http URLs; what oro reads vs. the commit the model built",
  "Extracting git and folder packages into node_modules is not implemented in this codebase (it's a clear error), so only what is read from them is decided.")

def write():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
            if p["observe"]: a["observe_at"] = p["observe"]
            if p["state"]: a["state"] = p["state"]
            a["hook_needed"] = None
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
    claimed = set(open(os.path.join(V, "tools", "claimed.txt")).read().split())
    na = {}
    for l in open(os.path.join(V, "tools", "not_applicable.txt")):
        l = l.strip()
        if l: k, r = l.split(" ", 1); na[k] = r
    m = dict(version=1, setup_cmd="./setup.sh",
        hooks=dict(guard="none (no hooks in /repo)", enable="the harness builds the crates of /repo as they are", source_commits=[]),
        checks=[dict(property=p["id"], quick_cmd="./check.sh "+p["id"], thorough_cmd="VERIF_TIER=thorough ./check.sh "+p["id"],
                     technique=p["technique"], level=p["level"], level_note=p["note"]) for p in PROPS if p["id"] in claimed],
        not_applicable=[dict(property=p["id"], reason=na.get(p["id"], "check not built yet")) for p in PROPS if p["id"] not in claimed])
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
write()
