#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, cant, files, mech, technique, note, observe=None):
    assert len(title) <= 80, (id, len(title))
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe:
        anchors["observe_at"] = observe
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                   why_tests_cant=cant, anchors=anchors), technique, note))

MODEL = ("Random search against a reference model written from the documentation and the grammar, independently of the code; "
         "shows presence of violations among the generated cases, not absence. Trusts the model, which was checked by hand wherever the two differed.")

prop("C01", "The syntax accepts exactly the documented language and yields its tree",
     "For any bytes, the parser terminates with either a syntax tree or an error, and which of them, and the tree with its text, calls, arguments of each kind and source locations, is determined by the documented grammar: prose and paragraphs, calls with inline, block, preformatted and verbatim arguments, escapes and nested comments. "
     "Bytes outside of comments are neither dropped, duplicated nor reordered, and an error tells where the input stops being valid.",
     ["inputs"], "every byte string, valid or not",
     "The fixtures parse a few dozen documents; the grammar has interacting alternatives (comments in the middle of words, nested brace kinds, indentation, escapes) over an infinite language.",
     ["ast/booklit.peg", "ast/booklit.peg.go", "ast/indent.go", "ast/node.go", "ast/errors.go"],
     [("the grammar and its generated parser", "ast/booklit.peg.go"), ("indentation tracking of preformatted arguments", "ast/indent.go"), ("unpacking of parse errors", "ast/errors.go")],
     "differential fuzzing of the parser against an independent recursive-descent model", MODEL)

prop("C02", "Layout that carries no meaning does not change the result",
     "Two documents which only differ in line endings (LF or CRLF), in the number of blank lines between paragraphs, in comments, in where prose lines are wrapped, or in the indentation of blocks as a whole give the same pages and search index.",
     ["inputs"], "every document and every change of its layout of these kinds",
     "The fixtures have one layout of each construct; the relation is between pairs of documents.",
     ["ast/booklit.peg", "ast/indent.go", "stages/evaluate.go", "paragraph.go"],
     [("whitespace, comment and linebreak rules", "ast/booklit.peg"), ("indentation trimming", "ast/indent.go")],
     "metamorphic testing: one random document tree printed with two random layouts must build identically",
     "Random search; the oracle is a relation between two real builds, so no model is trusted beyond the printer of documents.")

prop("C03", "No document crashes or hangs the build",
     "Whatever the bytes of the documents, and however its calls, arguments, references, titles, includes and nesting are combined, loading, rendering, indexing and reporting errors end with output or with an error, and never with a crash, a stack overflow or an endless loop.",
     ["inputs"], "every set of document files using the base functions, with deep nesting of calls limited to what the grammar parses in reasonable time",
     "A crash needs an unusual combination (an empty argument, a cycle of references or includes, a missing argument) and each existing test is a combination that works.",
     ["load/processor.go", "stages/evaluate.go", "stages/collect.go", "baselit/plugin.go", "render/html.go", "render/text.go", "errors.go"],
     [("evaluation of calls by reflection", "stages/evaluate.go"), ("cycle checks of includes", "section.go, load/processor.go"), ("depth limit of rendering", "render/html.go")],
     "structured and byte-level fuzzing of whole builds in watched subprocesses",
     "Random search for crashes and hangs; a hang is only reported when it repeats in a run by itself.")

prop("C04", "Base functions produce the content they document, or fail as documented",
     "Each base function gives exactly the documented content for its arguments, wherever it is nested: styles, links, images, lists, tables, definitions, code, larger and smaller text, insets, asides, titles, tags, targets, sections, styles, partials and tables of contents. "
     "An unknown function, the wrong number of arguments or a second title fails the build, with an error which tells which call is to blame.",
     ["inputs"], "every nesting of calls of the base functions, with any number and kind of arguments",
     "Tests have one or two examples per function; the result depends on nesting (flow or block context, paragraphs, sections) and on the number and kind of arguments.",
     ["baselit/plugin.go", "stages/evaluate.go", "render/html.go", "render/html"],
     [("base functions", "baselit/plugin.go"), ("dispatch of calls", "stages/evaluate.go"), ("templates of content", "render/html")],
     "model-based testing: random documents built for real and by a reference evaluator and renderer", MODEL)

prop("C05", "Plugin methods get the arguments that were written; their results are used",
     "A call of a plugin function calls the method whose name it is in lower case with dashes, with each argument converted to its parameter type (content, plain string, or unevaluated syntax), missing arguments only allowed where variadic, and the result, if any, in the place of the call. "
     "A wrong number of arguments and a parameter of another type fail the build, and so do an unknown function and an error returned by the method, located at the call.",
     ["inputs", "programs"], "every method signature of a set of plugins, and all calls of them with any arguments, anywhere",
     "The tests have one plugin with few signatures; dispatch is by reflection and only fails at run time.",
     ["stages/evaluate.go", "plugin.go", "section.go"],
     [("conversion of arguments", "stages/evaluate.go"), ("lookup of methods", "section.go, stages/evaluate.go")],
     "model-based testing with a probe plugin whose methods report exactly what they were given", MODEL)

prop("C06", "Plugins are scoped to sections, and the first to define a function has it",
     "A function is available from where a section uses its plugin on, in that section and its inline subsections, and nowhere else: not in sections above or beside it, and not in files that it includes, which only start with the base functions. "
     "Where several available plugins define a function, the one used first is called, the base functions before any others.",
     ["inputs", "programs"], "every nesting of sections and files, with plugins used at any points",
     "The tests have a single plugin used at the top of a document.",
     ["section.go", "stages/evaluate.go", "load/processor.go", "baselit/plugin.go"],
     [("list of plugins of a section", "section.go"), ("lookup order", "stages/evaluate.go")],
     "model-based testing: plugins that define the same functions, and a model of which one is visible", MODEL)

prop("C07", "Text is always escaped: no content becomes markup or an active URL",
     "Text from a document, wherever it goes (prose, titles, page titles, verbatim and code, links, image descriptions, tables, tags, anchors), never adds or changes an element or attribute of the page, and reads back as written. "
     "A link or image URL that is not relative, http, https or mailto is neutralised, however it is spelled.",
     ["inputs"], "every text in every position, and every URL",
     "Injection depends on the text and on where it is put; the tests have a handful of pairs with no hostile text.",
     ["render/html.go", "render/html", "render/writer.go", "chroma/plugin.go"],
     [("contextual escaping of the templates", "render/html"), ("values exempt from escaping", "render/html.go")],
     "metamorphic testing: harmless and hostile text in the same places must give the same tags and attributes",
     "Random search over hostile strings and positions; pages are tokenised with a standard HTML tokenizer, which is trusted.")

prop("C08", "References lead to what they name, or the build fails",
     "Each rendered reference links to a page that is written and, unless it leads to the top of the page, an anchor that is on it, and these are of the section or target it names, shown with the given text or else its title. "
     "The build fails if and only if a rendered reference names a tag that is not defined, or is defined more than once.",
     ["inputs"], "every tree of sections over any files, tags, targets and splits, with references anywhere",
     "It is a relation between all pages of a site, which depends on how it is split; the tests have one reference per document, mostly on one page.",
     ["reference.go", "section.go", "stages/collect.go", "render/html.go", "render/common.go", "target.go"],
     [("collecting tags", "stages/collect.go"), ("finding tags", "section.go"), ("resolving references", "reference.go"), ("URLs of sections and tags", "render/common.go")],
     "validity predicate over all written pages plus comparison with a reference model", MODEL)

prop("C09", "Splitting puts every section on exactly one page, in order, with its number",
     "When no two of them have the same tag, every section is rendered exactly once, in document order, with its number: on a page of its own if its parent calls for splitting and neither the parent nor a section above it is a single page, and otherwise on the page of its parent. "
     "Its heading level is its depth below the nearest section above that calls for splitting, granted or not, and exactly the pages of these sections are written, named after their tags.",
     ["inputs"], "every tree of sections, inline and included, with split and single-page flags anywhere",
     "The flags interact with each other along paths of the tree, and with the order of calls; the tests have four trees.",
     ["section.go", "render/writer.go", "render/html.go", "baselit/plugin.go"],
     [("page ownership, depth and numbers", "section.go"), ("writing of pages", "render/writer.go")],
     "model-based testing of trees of sections, and a count of each section over all pages", MODEL)

prop("C10", "The section tree answers queries consistently",
     "In a loaded site, the top, depth, number, page depth, file, previous and next section, next sibling and anchors of any section, and whether it contains or is the parent of another, are those defined by the nesting of sections in the documents. "
     "Looking for a tag from any section finds all of the tags of that name in the whole site, nearest first, and looking for similar ones finds all that are more alike than not.",
     ["inputs"], "every tree of sections over any files, with any tags and flags, and every pair of sections",
     "The queries are only tested through pages that happen to use them.",
     ["section.go", "stages/collect.go"],
     [("queries", "section.go"), ("collecting tags", "stages/collect.go")],
     "model-based testing: every query on every section (pair) compared with a model of the tree", MODEL)

prop("C11", "Tables of contents list the right sections in order",
     "A table of contents lists exactly the sections below its section, nested and in order, with their numbers, titles without auxiliary parts, and links to where they are, and leaves out the children of each section that asks for it.",
     ["inputs"], "every tree of sections, with flags, tables of contents and rich titles anywhere",
     "Tests have two tables of contents; what is listed depends on the whole tree and on the flags.",
     ["toc.go", "section.go", "render/html.go", "render/html"],
     [("navigation order", "section.go"), ("templates of tables of contents and pages", "render/html")],
     "model-based testing: the parsed lists of every page compared with a model of the tree", MODEL)

prop("C12", "Auxiliary content shows in headings only",
     "Auxiliary parts of a title are shown in its heading, and left out of links and tables of contents made from it and of its default tag. "
     "Leaving them out removes all of them at any depth of any kind of content and nothing else, and does not change the title itself.",
     ["inputs"], "every content with auxiliary parts at any depth of any kind of content",
     "It must reach through every kind of content (lists, tables, styles, links, blocks); tests have one auxiliary part in one title.",
     ["aux_.go", "reference.go", "toc.go", "baselit/plugin.go", "render/html.go"],
     [("stripping", "aux_.go")],
     "model-based testing of stripping on random content, with an unchanged-input check, and of pages", MODEL)

prop("C13", "Tags are derived and collected as documented",
     "A section with no tag of its own gets the tag derived from its title, which only depends on the title's text, lower-cased, with words joined by dashes and other symbols left out; explicit tags replace it, the first being its primary one. "
     "Every section and target tag of a document, in any kind of content but deferred, and at any depth, can be found, with the section, anchor, title and content it was defined with.",
     ["inputs"], "every title in any script, and every document with tags and targets anywhere",
     "Titles are arbitrary text; tests have plain English titles and targets in plain paragraphs.",
     ["section.go", "stages/collect.go", "target.go", "baselit/plugin.go"],
     [("default tags", "section.go, baselit/plugin.go"), ("collecting", "stages/collect.go")],
     "model-based testing of tag derivation and of all tags found in random documents", MODEL)

prop("C14", "The search index describes exactly the tags of the site",
     "The search index has an entry for each tag of the site and no others, with a location that leads to an existing page and anchor, the title without markup, the plain text of the section or target, its depth and the tag of its section.",
     ["inputs"], "every document with tags and targets, split in any way",
     "Tests have three small documents; the index is a summary of the whole site.",
     ["render/writer.go", "section.go", "content.go"],
     [("writing the index", "render/writer.go")],
     "model-based testing: the decoded index compared with the reference model and the written pages", MODEL)

prop("C15", "The server answers with what the build writes",
     "For any documents, a request for a page that the build writes answers with the same bytes, a request for any other tag answers with the page of its section by itself, and any other request answers from the static files. "
     "If and only if loading or rendering fails, the answer has status 500 and is a page that shows the error.",
     ["inputs"], "every document, valid or not, and every request path",
     "The server has no tests at all, and agreement is between two commands.",
     ["booklitcmd/server.go", "render/writer.go", "render/html.go"],
     [("serving", "booklitcmd/server.go")],
     "differential testing: the server's answers against the files of a real build", "Random search; the build itself is judged by the other properties.")

prop("C16", "A long-running server is always up to date",
     "After any history of edits, removals, restorations and breakages of documents and templates, with any modification times that differ from edit to edit (also backwards), each answer of a running server is the same as that of a server started afresh.",
     ["histories", "inputs"], "every history of edits and requests, in which each edit of a file gives it a modification time which no earlier version had, or one other than that of the version which the server has last loaded without an error, or removes it",
     "Caching errors need a particular history of edits, failures and times; there is no test of a history.",
     ["load/processor.go", "booklitcmd/server.go", "render/html.go"],
     [("cache of parsed files by modification time", "load/processor.go"), ("reloading of templates", "render/html.go")],
     "stateful testing: histories of edits and requests, differential against a fresh server after each", "Random search over histories; the fresh server is judged by the other properties.")

prop("C17", "Concurrent requests do not interfere",
     "However requests are interleaved with each other and with replacements of a document or template, there is no data race and no deadlock, and each answer is one that the server gives, by itself, for one of the versions of the file.",
     ["schedules", "histories"], "every interleaving of requests of a server, loads of a processor and atomic replacements of one file at a time",
     "There is no concurrent test; races need an interleaving.",
     ["booklitcmd/server.go", "load/processor.go", "lazy.go", "render/html.go", "stages/evaluate.go"],
     [("lock of the parse cache", "load/processor.go"), ("build lock", "booklitcmd/server.go"), ("once-only lazy content", "lazy.go")],
     "random concurrent histories under the race detector, answers checked against the sequential ones",
     "Schedules are the Go scheduler's, not enumerated: the race detector reports unsynchronised accesses in whatever schedule runs, a wrong answer needs an unlucky one.",
)

def main():
    exec(open(os.path.join(ROOT, "tools", "props_more.py")).read(), globals()) if os.path.exists(os.path.join(ROOT, "tools", "props_more.py")) else None
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, _, _ in P:
            f.write(json.dumps(p) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "./check " + p["id"],
            "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": t, "level": "exploration", "level_note": n,
        } for p, t, n in P],
        "not_applicable": [],
        "notes": "No hooks. Known findings: known_findings.txt. One saved case: ./replay FILE.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()
