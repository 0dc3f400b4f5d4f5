#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one catalogue, so that they stay in step."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(id, title, statement, over, text, why, files, mech, observe, note, technique, claimed=True):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                observe=observe, note=note, technique=technique, claimed=claimed)


PROPS = [
    P("C01", "Resolving a registry gives one answer, whatever the schedule or file layout",
      "Resolving the same registry always gives byte-identical output, the same exit status and the same set of "
      "diagnostics, whatever the thread count, the timing of file reads, the order in which the file system lists "
      "files, or earlier runs. Moving definitions between files, renaming or reordering files and directories, and "
      "reordering the groups, attributes, signals or mapping keys inside a file do not change what the registry "
      "resolves to.",
      ["schedules", "inputs", "configurations"],
      "every registry (v1 and v2 definitions), every schedule of the parallel loader, every directory listing order, "
      "every distribution of the definitions over files",
      "Tests resolve a few fixed registries once, with one layout and whatever schedule occurs; a race or an "
      "order-dependent rule shows only under other interleavings or layouts.",
      ["crates/weaver_resolver/src/loader.rs", "crates/weaver_resolver/src/registry.rs",
       "crates/weaver_resolver/src/attribute.rs", "crates/weaver_resolved_schema/src/v2/mod.rs"],
      [("parallel file loading, then sorting of groups and attributes", "crates/weaver_resolver/src/loader.rs, registry.rs"),
       ("definition-before-reference attribute catalogue", "crates/weaver_resolver/src/attribute.rs")],
      ["`registry resolve` stdout, stderr diagnostics and exit status"],
      "Differential monitor over perturbed executions (injected delays, shuffled directory listings, thread counts) "
      "and layout permutations of generated registries; reaches only the generated registries and schedules.",
      "runtime monitoring: schedule perturbation by an LD_PRELOAD shim and differential output checker"),
    P("C02", "A v1 registry resolves to exactly what its definitions say",
      "For every valid v1 registry the resolved output contains exactly the declared groups, each with exactly the "
      "attributes it declares or inherits through `extends`, in name order. Each attribute carries the definition's "
      "properties overridden by those the referencing group (and then its ancestors, nearest first) sets, and every "
      "other declared property (briefs, notes, examples, enum members, annotations, deprecation, stability, units, "
      "instruments, span kinds, bodies, entity associations) comes through unchanged.",
      ["inputs"], "every valid v1 registry, with any chain of references and inheritance",
      "Golden-file tests hold a handful of registries; the merge rules interact over arbitrary chains and field "
      "combinations that no fixture samples.",
      ["crates/weaver_resolver/src/registry.rs", "crates/weaver_resolver/src/attribute.rs",
       "crates/weaver_semconv/src/group.rs", "crates/weaver_semconv/src/attribute.rs",
       "crates/weaver_forge/src/registry.rs"],
      [("extends fixpoint and attribute reference merge", "crates/weaver_resolver/src/registry.rs, attribute.rs")],
      ["`registry resolve` (v1) output in every format"],
      "Generated registries judged by an independent reference model of the documented semantics.",
      "runtime monitoring: reference-model oracle over generated workloads driven through the real CLI"),
    P("C03", "A v2 registry resolves to exactly what its definitions and refinements say",
      "For every valid v2 registry, the resolved registry contains exactly the declared attributes, public attribute "
      "groups, spans, metrics, events and entities, and their refinements. An attribute of a signal carries the "
      "definition's properties overridden by (highest first) the signal's own reference, the attribute group it "
      "includes, and the signal it refines; a refinement keeps the brief, note, stability, attributes and signal "
      "properties of its base that it does not override, and never changes the base itself.",
      ["inputs"], "every valid v2 registry, with any mix of references, attribute groups and refinements",
      "The precedence of three sources over every property and signal kind is only sampled by fixtures.",
      ["crates/weaver_resolver/src/registry.rs", "crates/weaver_semconv/src/v2/", "crates/weaver_resolved_schema/src/v2/mod.rs",
       "crates/weaver_forge/src/v2/registry.rs"],
      [("v2 to group lowering, include_groups and refinement merge", "crates/weaver_semconv/src/v2, crates/weaver_resolver/src/registry.rs"),
       ("conversion of resolved groups to the v2 schema", "crates/weaver_resolved_schema/src/v2/mod.rs")],
      ["`registry resolve --v2` and `registry package` output"],
      "Generated registries judged by an independent reference model of the documented v2 semantics.",
      "runtime monitoring: reference-model oracle over generated workloads driven through the real CLI"),
    P("C04", "Invalid registries are rejected, with a diagnostic and without artifacts",
      "A registry that breaks a documented rule (unknown references, parents, groups or entities, reference cycles, "
      "attributes defined twice, missing or misplaced required properties, malformed types or YAML) makes every command "
      "that reads it exit non-zero with a diagnostic; rules announced for the future warn, and fail with `--future`. "
      "For a registry that cannot be resolved no command writes resolved, packaged, generated or updated output, no "
      "package is written for one with any error, and a valid registry is never rejected.",
      ["inputs", "configurations"], "every way of breaking a documented rule, at every place of every registry, for every command",
      "Tests break each rule once, in a minimal registry and for one command.",
      ["crates/weaver_semconv/src/group.rs", "crates/weaver_semconv/src/attribute.rs", "crates/weaver_resolver/src/registry.rs",
       "crates/weaver_resolver/src/lib.rs", "src/registry/"],
      [("per-file validation and registry-wide uniqueness and completeness checks", "crates/weaver_semconv, crates/weaver_resolver")],
      ["exit status, diagnostics and output files of check, resolve, package, generate, update-markdown"],
      "Mutates valid generated registries with one known defect each; the defect is the oracle.",
      "runtime monitoring: fault injection into inputs with an exit-status, diagnostic and file-effect monitor"),
    P("C05", "Dependencies bring in exactly what is imported or referenced, or fail",
      "Resolving a registry with dependencies yields its own definitions plus exactly the dependency items that its "
      "imports match or its definitions reference, with the values the dependency resolves them to. An import that "
      "matches nothing is reported, and using an item hidden from dependents, an ambiguous name, incompatible "
      "versions, a missing dependency and a dependency cycle are errors. When two compatible versions of one dependency are reachable the latest is used, and the "
      "result does not depend on the order in which dependencies are listed.",
      ["inputs", "configurations"], "every dependency graph, import pattern and hiding annotation",
      "Tests hold a few fixed dependency pairs; graph shape, pattern and visibility combinations are unbounded.",
      ["crates/weaver_resolver/src/dependency.rs", "crates/weaver_resolver/src/imports.rs", "crates/weaver_resolver/src/loader.rs",
       "crates/weaver_resolver/src/registry.rs"],
      [("dependency loading, version selection, import matching, visibility checks", "crates/weaver_resolver/src")],
      ["`registry resolve` output and exit status of dependent registries"],
      "Generated dependency graphs judged by a reference model.",
      "runtime monitoring: reference-model oracle over generated dependency graphs"),
    P("C06", "A packaged registry means the same as its source",
      "The files written by packaging a registry hold every definition of the source exactly as resolving the source "
      "does, conform to the published JSON schemas, and are the same on every run. Using the package in place of the "
      "source, as a registry to check, generate from, diff or live-check against, or as a dependency, gives the same "
      "results. A registry with errors leaves the output directory untouched, and a package that cannot be written "
      "completely is reported as a failure.",
      ["inputs", "histories", "configurations"], "every valid registry, every consumer of the package",
      "Tests compare single fixtures; equivalence must hold for all registries and consumers.",
      ["src/registry/package.rs", "crates/weaver_resolved_schema/src/v2/", "crates/weaver_semconv/src/manifest.rs",
       "crates/weaver_resolver/src/loader.rs"],
      [("resolved schema serialisation and reload", "crates/weaver_resolved_schema/src/v2, crates/weaver_resolver/src/loader.rs")],
      ["package output directory; output of commands run on it"],
      "Metamorphic comparison of source and package over generated registries.",
      "runtime monitoring: metamorphic source-versus-package differential checker"),
    P("C07", "A registry diff reports exactly the changes between two registries",
      "For every pair of registries the diff lists every added, removed, renamed, obsoleted and otherwise deprecated "
      "attribute and signal exactly once in its category, and nothing else. A registry has no differences with "
      "itself, an item added in one direction is removed in the other, and the output is deterministic.",
      ["inputs"], "every pair of registries",
      "Tests diff a few pairs; completeness and absence of false entries quantify over all pairs.",
      ["crates/weaver_resolved_schema/src/lib.rs", "crates/weaver_resolved_schema/src/v2/mod.rs",
       "crates/weaver_version/src/schema_changes.rs", "crates/weaver_version/src/v2/", "src/registry/diff.rs"],
      [("comparison of latest and baseline resolved registries", "crates/weaver_resolved_schema/src/lib.rs and v2/mod.rs")],
      ["`registry diff --format json` and its other formats"],
      "Evolution scripts applied to generated registries are the oracle.",
      "runtime monitoring: edit-script oracle over generated registry pairs"),
    P("C08", "Live check reports exactly the findings the registry calls for",
      "For every sample, live check attaches to each entity exactly the findings that the registry and the built-in "
      "rules call for (unknown, deprecated, unstable, mistyped, undefined variant, missing required and recommended "
      "attributes, entities missing from the resource, wrong instrument or unit, name format and namespace rules), each "
      "with the right level, on the right entity, and no others. Findings of a sample do not depend on the other samples "
      "of the run or their order, the resource it belongs to apart, and a policy of the user's own is given each entity "
      "once, with its resource and its registry definition.",
      ["inputs", "histories"], "every registry, every sample and every order of samples",
      "Tests hold a few fixed samples; the finding rules interact with every type, template and namespace combination.",
      ["crates/weaver_live_check/src/", "defaults/policies/live_check_advice/otel.rego"],
      [("advisors and sample walkers", "crates/weaver_live_check/src/advice"),
       ("registry lookup of attributes, templates, metrics and events", "crates/weaver_live_check/src/live_checker.rs")],
      ["live-check JSON report"],
      "Generated registries and samples judged by an independent reference model of every built-in advisor.",
      "runtime monitoring: offline report checker against a reference model"),
    P("C09", "Live-check statistics, filters and exit status agree with the findings",
      "The statistics of a live-check run equal those recomputed from the findings it reports: every entity counted "
      "once, totals by level, type and message adding up, registry coverage within bounds and equal to the items seen. "
      "Level overrides and filters change exactly the findings they name, the exit status is non-zero exactly when a "
      "finding reaches the chosen threshold, and every output format and streaming mode carries the same findings.",
      ["inputs", "configurations"], "every run, configuration, output format and streaming mode",
      "Tests check a few totals; conservation must hold over arbitrary findings and configurations.",
      ["crates/weaver_live_check/src/stats.rs", "crates/weaver_live_check/src/live_checker.rs", "src/registry/live_check.rs",
       "crates/weaver_config/src/"],
      [("statistics accumulation, finding modifier and filters", "crates/weaver_live_check/src")],
      ["live-check report in every format, exit status"],
      "Conservation checker that recomputes every statistic from the reported findings.",
      "runtime monitoring: conservation checker over recorded reports"),
    P("C10", "Telemetry accepted by the OTLP receiver is checked exactly once",
      "Every span, span event, span link, metric, data point, log record, resource and attribute in a request the "
      "receiver acknowledged before a stop was requested appears exactly once in the final report, with the name, "
      "type and value sent, under concurrent senders and any way of stopping. Nothing that was not sent appears, and "
      "one request's resource never stands in for another's.",
      ["schedules", "histories", "inputs"], "every sequence and interleaving of OTLP requests and every stop",
      "End-to-end OTLP tests are not in the stable suite and send one fixed payload; loss and duplication depend on "
      "interleaving and stop timing.",
      ["crates/weaver_live_check/src/otlp/", "src/registry/otlp/", "src/registry/live_check.rs"],
      [("gRPC services feeding one channel; stop messages share the channel", "src/registry/otlp"),
       ("conversion of OTLP messages to samples", "src/registry/otlp/conversion.rs")],
      ["gRPC acknowledgements; the live-check report"],
      "Recorded send and acknowledge histories checked against the report for exactly-once accounting.",
      "runtime monitoring: exactly-once checker over send/ack histories with concurrent senders"),
    P("C11", "Policies see exactly the data of their phase and decide the outcome",
      "Every finding a user policy produces for the phase and registry it applies to is reported exactly once with "
      "its content, and none is invented; before-resolution rules see each file as written, after-resolution rules "
      "see the resolved registry, and comparison rules see the new registry and the baseline (before-resolution rules "
      "apply to the files of the main registry, in the v1 view). The command fails exactly when there is a finding or "
      "another error, an unusable policy is an error, and policies that are skipped have no effect.",
      ["inputs", "configurations"], "every policy, phase and registry",
      "Tests hold a few fixed policies and registries.",
      ["crates/weaver_checker/src/lib.rs", "src/weaver.rs", "src/registry/check.rs"],
      [("rego engine per phase", "crates/weaver_checker/src/lib.rs"), ("phase drivers", "src/weaver.rs")],
      ["diagnostics and exit status of check, resolve and generate"],
      "Policies that echo what they see, compared with the generated registry.",
      "runtime monitoring: echoing policies as probes, compared with the model of the registry"),
    P("C12", "Generation writes exactly the selected files with exactly the selected data",
      "Code generation writes exactly the files that the templates' configuration selects: one per element or one per "
      "selection, named by file_name or set_file_name, with the content the template renders for the data its filter "
      "selects (the semconv_* filters select what they document). Configuration files are merged in the documented "
      "order, parameters of the command line override those of the template and of the files, and every run gives the "
      "same bytes. A failing template, filter or condition makes the command exit non-zero.",
      ["inputs", "schedules", "configurations"], "every registry, template configuration and schedule of the parallel renderer",
      "Tests compare a few golden outputs on one schedule.",
      ["crates/weaver_forge/src/lib.rs", "crates/weaver_forge/src/config.rs", "crates/weaver_forge/src/jq.rs"],
      [("parallel template evaluation per application mode", "crates/weaver_forge/src/lib.rs"),
       ("configuration merge and parameter precedence", "crates/weaver_forge/src/config.rs")],
      ["output directory and exit status of `registry generate`"],
      "Echoing templates compared with independently evaluated selections.",
      "runtime monitoring: echoing templates as probes, file-effect monitor and schedule perturbation"),
    P("C13", "Updating markdown touches only the generated sections, and is idempotent",
      "Updating markdown replaces exactly the text between each snippet's markers, with the snippet template rendered "
      "for the item the marker names, and leaves every other line of every file alone (line endings become LF and the "
      "last line is ended); a second update changes nothing. A dry run never writes and exits non-zero exactly when an "
      "update would change a file, and a file whose update fails (an unknown item, a marker without an end marker) is left as it was.",
      ["inputs", "histories"], "every markdown file and registry",
      "Tests hold a few fixture files; preservation and idempotence quantify over arbitrary surrounding text.",
      ["crates/weaver_semconv_gen/src/lib.rs", "crates/weaver_semconv_gen/src/parser.rs", "src/registry/update_markdown.rs"],
      [("line scanner that copies text outside markers", "crates/weaver_semconv_gen/src/lib.rs")],
      ["markdown files before and after"],
      "Generated documents with a byte-level outside-of-snippets oracle.",
      "runtime monitoring: byte-level file-effect monitor over generated documents"),
    P("C14", "Viewing a v1 registry as v2 keeps all of its information",
      "A v1 registry resolved in the v2 format has the same attributes, spans, metrics, events and entities, with the "
      "same attribute lists, values and properties, as resolved in the v1 format, as far as the v2 format has a place "
      "for them (it has none for event bodies, tags, display names, nor for v1 attribute groups). A signal that extends "
      "one of its own type is held as a refinement of it, under its own name. The v2 output is self-consistent: every "
      "reference in it points to an item it holds, and it conforms to the published schema.",
      ["inputs"], "every valid v1 registry",
      "Tests convert a few fixtures; dropping one item or one property for one shape passes them.",
      ["crates/weaver_resolved_schema/src/v2/mod.rs", "crates/weaver_forge/src/v2/registry.rs"],
      [("conversion of resolved v1 groups to the v2 schema", "crates/weaver_resolved_schema/src/v2/mod.rs")],
      ["`registry resolve` against `registry resolve --v2`, `registry package`"],
      "Both views of generated registries compared through an independent mapping.",
      "runtime monitoring: cross-view differential checker"),
    P("C15", "Emitted telemetry matches the registry and passes live check",
      "Emitting a registry sends every span, metric and event it defines exactly once as OTLP, each with its "
      "attributes, values of the right type (taken from the examples of string and numeric attributes that have some), "
      "and the right instrument, unit and span kind; when the collector refuses or cannot be reached, the command "
      "fails. Feeding the emitted telemetry to live check on the same registry reports no missing or unknown "
      "attribute, wrong type, value, unit or instrument. (Metric names and units the OTel API rejects are excepted.)",
      ["inputs"], "every valid registry", "The end-to-end emit test is not in the stable suite and uses one registry.",
      ["crates/weaver_emit/src/", "src/registry/emit.rs"],
      [("one OTLP item per signal, value generation per type", "crates/weaver_emit/src")],
      ["OTLP requests recorded by a collector of our own; live-check report"],
      "Recorded OTLP requests compared with the registry.",
      "runtime monitoring: recording collector and exactly-once checker"),
    P("C16", "An inferred registry describes exactly the telemetry it was inferred from",
      "The registry inferred from received OTLP telemetry holds every distinct span, metric, event (log events and "
      "span events) and the attributes of these and of the resources that were sent, with types, units, instruments, "
      "span kinds and examples (at most five) that occurred in the telemetry, and nothing else. It is itself a valid "
      "registry, and when each name is used with one type it does not depend, but for the choice of examples, on how "
      "the telemetry was batched or ordered.",
      ["inputs", "histories", "schedules"], "every telemetry history and batching", "Tests infer from single messages.",
      ["crates/weaver_infer/src/", "src/registry/infer.rs"],
      [("accumulator over OTLP messages", "crates/weaver_infer/src")],
      ["inferred registry file; check and live-check run on it"],
      "Generated telemetry histories compared with the inferred registry.",
      "runtime monitoring: reference-model oracle over recorded telemetry histories"),
    P("C17", "Every command ends with an honest exit status and diagnostics, never a crash",
      "Whatever files, options or telemetry it is given, a command ends by itself without crashing, and exits zero "
      "exactly when it reported no error. In the machine-readable diagnostic formats, the diagnostics are well formed "
      "and carry the same errors as the human-readable one.",
      ["inputs", "configurations", "fault_sequences"], "every input including hostile and truncated ones, every command and format",
      "Tests feed well-formed or singly broken inputs.",
      ["src/main.rs", "src/registry/mod.rs", "crates/weaver_common/src/diagnostic.rs", "crates/weaver_semconv/src/"],
      [("diagnostic collection and exit directives", "src/main.rs, crates/weaver_common/src/diagnostic.rs")],
      ["exit status, signals, stderr, stdout"],
      "Hostile inputs with a crash, hang and exit-status monitor.",
      "runtime monitoring: crash and exit-status monitor under hostile workloads"),
    P("C18", "Search, browsing API, MCP tools and statistics all agree with the registry",
      "Every item of the registry can be retrieved by its name through the HTTP API and the MCP tools with the content "
      "it resolves to, and an unknown name is reported as absent. Searches return only matching items, in a "
      "deterministic order, without duplicates, and paging through results yields each match exactly once; statistics "
      "counts equal those of the registry.",
      ["inputs", "histories"], "every registry, query and paging sequence",
      "Tests query a few names in small fixtures.",
      ["crates/weaver_search/src/", "src/serve/", "crates/weaver_mcp/src/", "src/registry/stats.rs"],
      [("search index and ranking", "crates/weaver_search/src"), ("HTTP handlers", "src/serve"), ("MCP tools", "crates/weaver_mcp/src")],
      ["HTTP and MCP responses; stats output"],
      "Responses compared with the resolved registry.",
      "runtime monitoring: response checker against the resolved registry"),
    P("C19", "Settings take effect by the documented precedence, from the right file",
      "For every setting, a command-line option overrides the project configuration file, which overrides the "
      "built-in default; the configuration file used is the one named explicitly or else the nearest one upwards from "
      "the working directory. Unset fields never disturb other settings, and an unreadable, malformed or "
      "wrongly typed configuration file is an error, never silently ignored.",
      ["configurations"], "every combination of settings, sources and directory positions",
      "Tests set a few fields from one source each.",
      ["crates/weaver_config/src/", "src/cli.rs", "src/registry/"],
      [("configuration discovery and merge", "crates/weaver_config/src")],
      ["observable effect of each setting on the commands"],
      "Every setting driven from each source with a distinguishable effect.",
      "runtime monitoring: configuration-matrix effect monitor"),
    P("C20", "Template helper functions obey their documented rules for every string",
      "The case conversion, comment, text, sorting, namespace and type helpers offered to templates give the "
      "documented result for every input: case conversions lose no letter or digit, a comment keeps every word of its "
      "text in order, with the configured header, prefix, indent, footer and line length on every line, and the tests and "
      "filters on attributes, types and metrics give what their documentation says. What a helper cannot handle is an "
      "error, never a crash or a silently wrong text.",
      ["inputs"], "every string and attribute given to a helper",
      "Tests check a few examples of each helper.",
      ["crates/weaver_forge/src/extensions/", "crates/weaver_forge/src/formats/"],
      [("minijinja filters, functions and tests", "crates/weaver_forge/src/extensions")],
      ["rendered template output"],
      "Generated inputs rendered through real templates, judged by algebraic laws and small models.",
      "runtime monitoring: law and reference-model oracle over rendered output"),
    P("C21", "Archives and sub-folders never let a registry reach outside its own tree",
      "A registry given as a local folder (however its path is written), zip or tar archive, with or without a "
      "sub-folder, resolves to the same result. Whatever entries an archive holds, opening it writes and reads nothing outside the temporary area it is "
      "unpacked to, a missing sub-folder is an error, and nothing is left behind afterwards.",
      ["inputs"], "every archive content and every way of naming a registry",
      "Tests open well-formed archives only.",
      ["crates/weaver_common/src/vdir.rs"],
      [("archive unpacking with path checks", "crates/weaver_common/src/vdir.rs")],
      ["output, exit status, and the files present before and after"],
      "Hostile archives under an unprivileged user, with a before-and-after file monitor.",
      "runtime monitoring: file-effect monitor over hostile archives"),
    P("C22", "The same inputs give the same bytes in every report and artifact",
      "Whatever a command writes - generated files, resolved registries, packages, diffs, search results, statistics, "
      "live-check reports, inferred registries, updated Markdown - is byte for byte the same each time the command is run on "
      "the same inputs, in whatever folder they lie, whatever the number of threads, their timing, the order in which "
      "the file system lists files, and the seeds of hash tables. The exit status and the set of diagnostics are the "
      "same too. (The order of diagnostics, and which of two elements wins that a template writes to the same file name, are "
      "not covered.)",
      ["schedules", "inputs", "configurations"],
      "every command that writes something, every input, every schedule and listing order",
      "Tests compare one run with one expected file, and hash seeds, thread timing and listing order change from run "
      "to run.",
      ["src/registry/", "crates/weaver_forge/src/", "crates/weaver_live_check/src/stats.rs", "crates/weaver_infer/src/",
       "crates/weaver_version/src/"],
      [("ordered collections and sorting before writing", "src/registry/stats.rs, crates/weaver_live_check/src/stats.rs"),
       ("template engine rendering", "crates/weaver_forge/src/lib.rs")],
      ["standard output, files written, exit status and diagnostics of repeated runs"],
      "Fresh copies of generated projects run through every command with other schedules, compared byte for byte.",
      "runtime monitoring: run-to-run trace comparison under perturbed schedules"),
    P("C23", "Remote registries arrive whole, and credentials go only where configured",
      "A registry, dependency, baseline, template folder or policy named by an HTTP URL (an archive, a published manifest, a "
      "file) or by a git URL gives what the same content in a local folder gives; a git reference selects exactly that branch, "
      "tag or commit, and the default branch if there is none. A status that is not a success, an endless redirect, a "
      "connection that ends early, or content of another kind is an error, never a partial result, and nothing is left behind. "
      "Each request carries the bearer token of the longest matching `url_prefix` of the `[[auth]]` entries and no other; a "
      "token never goes to another host through a redirect and is never printed or written; a token command runs only for a "
      "request it concerns, and once. Malformed `[[auth]]` entries are an error. Without `--allow-git-credentials` the "
      "user's git configuration and credential helpers have no effect.",
      ["inputs", "configurations", "fault_sequences"],
      "every remote content, set of [[auth]] entries, redirect chain, server fault, and git repository",
      "Tests fetch one archive from one well-behaved server; tokens, redirects, faults and git references combine in ways no "
      "test samples.",
      ["crates/weaver_common/src/vdir.rs", "crates/weaver_common/src/http_auth.rs", "crates/weaver_config/src/auth.rs",
       "crates/weaver_semconv/src/registry_repo.rs", "crates/weaver_resolver/src/loader.rs"],
      [("token lookup by longest prefix, command cache", "crates/weaver_common/src/http_auth.rs"),
       ("downloads, redirects, git clones", "crates/weaver_common/src/vdir.rs")],
      ["every request with its headers as a server sees it, runs of token commands, output, exit status, files left"],
      "A server of the check records all requests and injects faults; an independent model of the rules judges each.",
      "runtime monitoring: request recorder with fault injection, judged by a model of the auth rules and a differential oracle"),
]


def main():
    built = {f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "props")) if f.startswith("c") and f.endswith(".py")}
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in PROPS:
        if p["id"] in built:
            checks.append({"property": p["id"],
                           "quick_cmd": f"python3 check.py {p['id']} quick",
                           "thorough_cmd": f"python3 check.py {p['id']} thorough",
                           "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks: every observation is made at the program's own interfaces."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
    assert all(len(p["title"]) <= 80 for p in PROPS), [p["title"] for p in PROPS if len(p["title"]) > 80]


if __name__ == "__main__":
    sys.exit(main())
