prop("C18", "Error reports point at the mistake and quote it unharmed",
     "A report of an error in a document, on the terminal and as a page, names the file and line of the call, tag or syntax to blame, shows that line as written with just the part to blame marked, and tells what is wrong; where a title is set twice, or a tag is ambiguous, also the other places. "
     "For an unknown tag just the existing tags which resemble it are suggested. "
     "Text of documents and errors never becomes markup of the error page.",
     ["inputs"], "every mistake in every document, with lines of any length and any text",
     "The place depends on everything before it (comments, multi-byte text, nested calls, included files, long lines), and the tests compare a few fixed reports of short lines.",
     ["errors.go", "ast/errors.go", "ast/node.go", "stages/evaluate.go", "reference.go", "load/processor.go", "errhtml"],
     [("snippets and annotations", "errors.go"), ("locations of calls", "stages/evaluate.go"), ("suggestions of tags", "section.go, errors.go"), ("error pages", "errhtml/")],
     "model-based testing: documents with random mistakes, the location and cause from a reference model, both reports parsed and compared", MODEL)

prop("C19", "The command writes just the promised files, or says what failed",
     "The command exits with status 0 if and only if everything asked for was written: the pages below --out or on standard output, of the section chosen with --section-tag or --section-path, with the given templates or text format, and the search index if asked for; other files are left alone. "
     "Otherwise it exits with status 1 and tells why on standard error, with file and line when a document is to blame, also when a file or directory cannot be read or written. "
     "With --serve it serves the same pages.",
     ["inputs", "configurations", "fault_sequences"], "every set of flags, documents, templates and existing output directories, with any unwritable, missing or misplaced file",
     "No test runs the command; flags, failures to write and exit statuses combine.",
     ["cmd/booklit/main.go", "booklitcmd/command.go", "booklitcmd/server.go", "render/writer.go", "load/processor.go"],
     [("flags and modes", "booklitcmd/command.go"), ("writing of pages and index", "render/writer.go"), ("exit status", "cmd/booklit/main.go")],
     "model-based testing of the real command in subprocesses, with injected faults of files and directories", MODEL)

prop("C20", "The same documents always give the same bytes",
     "Building the same documents with the same templates gives byte-identical pages, search index and error reports, whatever was in the output directory before, wherever the documents lie, whichever logging flags are set, in whichever process and environment, and in whichever order pages are rendered.",
     ["inputs", "histories"], "every set of documents, and every pair of ways to build them",
     "A difference between runs needs map iteration, stale files or order to matter in a document; a test that builds once cannot see it.",
     ["booklitcmd/command.go", "render/writer.go", "stages/collect.go", "section.go", "lazy.go", "load/processor.go", "render/html.go", "stages/evaluate.go"],
     [("collection of tags", "stages/collect.go"), ("writing of files", "render/writer.go"), ("slow call logging", "stages/evaluate.go")],
     "metamorphic testing: several builds of a random document, compared to the byte",
     "Random search; the oracle compares real builds with each other, so a wrong but repeatable result is for other properties to find. Go's random map order makes each build a random sample of orders.")

prop("C21", "Deferred content runs once, when it is needed, and means one thing",
     "A function given to Lazy is not called before its content is needed, and is called at most once for good, however the content is nested, copied into headings, listings and references, stripped, joined or rendered, and by however many at once; every use sees its result, or its error. "
     "Making content does not call it, so it may look at the whole tree.",
     ["inputs", "histories", "schedules"], "all content with deferred parts anywhere, and every sequence of uses of it, also concurrent ones",
     "Whether a use forces deferred content, and how often, depends on the history of its uses and their interleaving.",
     ["lazy.go", "reference.go", "stages/collect.go", "aux_.go", "append.go", "sequence.go", "render/html.go"],
     [("deferring and remembering", "lazy.go"), ("forcing", "stages/collect.go, render/")],
     "stateful model-based testing with counted functions, concurrent uses under the race detector",
     "Random search over histories against a model of what is forced when; schedules are those the Go scheduler gives.")

prop("C22", "Content is a value: using it never changes it, and joining keeps it all",
     "Joining, stripping, embedding, summarising, rendering or searching content gives new content and leaves every earlier piece as it was, also when it was used for several joins. "
     "Joining keeps all parts in order: flow content makes lines of a paragraph, blocks follow each other; what text content gives and whether it is flow follow from its parts.",
     ["inputs", "histories"], "all content and every sequence of operations on it",
     "Sharing of memory between results shows only after particular histories of joins and strips, and tests look at one result.",
     ["append.go", "sequence.go", "paragraph.go", "aux_.go", "styled.go", "list.go", "table.go", "definitions.go", "preformatted.go", "reference.go", "section.go", "toc.go", "string.go"],
     [("joining", "append.go"), ("stripping", "aux_.go"), ("text and kind of content", "each content type")],
     "stateful model-based testing: histories of operations on a pool of content against immutable model values",
     "Random search; the model of content was written from the documentation of the types.")

prop("C23", "Templates decide how each style and kind of content is rendered",
     "With templates given, each page, section and styled content is rendered by the template of its name, or the bundled one if there is none, with the documented fields, methods and functions giving what the tree has: titles, numbers, partials, children, neighbours, tags, links and contents. "
     "Whatever a template inserts as text is escaped; content is rendered where the template puts it, and nothing else is added.",
     ["inputs", "configurations"], "all sets of documents and all sets of templates which use what is documented for templates",
     "Templates and documents are programs of the user; tests have a few fixed ones.",
     ["render/html.go", "render/engine.go", "render/common.go", "render/writer.go", "section.go", "styled.go", "load/processor.go"],
     [("choice and running of templates", "render/html.go"), ("what templates are given", "render/common.go, section.go")],
     "model-based testing: generated documents with generated templates, against an interpreter of the templates", MODEL)

prop("C24", "The text format renders all text, unescaped, with the user's templates",
     "Rendered as text, pages have the extension asked for, in names and links, and hold the text of all content in order and unescaped, by the user's templates where there are any and the bundled ones otherwise. "
     "Content for which there is no text template fails the build with an error which says so; nothing is left out silently.",
     ["inputs", "configurations"], "all sets of documents, extensions and text templates",
     "Nesting of paragraphs, lists, preformatted text and sections decides where text goes; tests render a few documents as text.",
     ["render/text.go", "render/text", "render/engine.go", "render/writer.go", "booklitcmd/command.go"],
     [("the text engine", "render/text.go"), ("bundled text templates", "render/text/")],
     "model-based testing: generated documents, with and without generated templates, against a model of the text engine", MODEL)

prop("C25", "Highlighted code has the text that was written, and can be transformed",
     "The syntax function of the chroma plugin gives, for any content, language and style, also unknown ones, well-formed HTML whose text is just that of the content, escaped, as a block or as flow like the content, with its language. "
     "Transformers replace exactly what their patterns match, in what earlier ones left; Booklit code is highlighted as what it is.",
     ["inputs"], "all code, languages, styles, patterns and documents with highlighted code",
     "Code is arbitrary text, and tests do not use the plugin.",
     ["chroma/plugin.go", "chroma/booklit_lexer.go", "chroma/plugin"],
     [("highlighting and transforming", "chroma/"), ("lexer of Booklit", "chroma/")],
     "property-based testing: text of the tokenised HTML against the code; replacement by regexp as the model; generated Booklit code with known tokens",
     "Random search; which colors code gets is up to the library and not checked, except for the kinds of tokens of Booklit code.")

prop("C26", "Plugins named on the command line are built in, and nothing else changes",
     "With --plugin, the command behaves as one that has the plugins of these packages built in: same pages, output, messages, working directory, environment and exit status, also when a plugin fails or ends or kills the process. "
     "If they cannot be built it exits with status 1, tells so, and writes nothing; no temporary files are left behind.",
     ["inputs", "configurations", "fault_sequences"], "all lists of packages, good and bad, documents and other flags",
     "No test runs the command, and what matters is how two processes work together.",
     ["booklitcmd/command.go", "plugin.go", "cmd/booklit/main.go"],
     [("building and running itself again", "booklitcmd/command.go"), ("registry of plugins", "plugin.go")],
     "model-based testing of the real command in subprocesses, with plugins which observe and end their process", MODEL)

prop("C27", "Broken references can be allowed, which changes nothing else",
     "With --allow-broken-references, a reference to a tag which is unknown or ambiguous is shown with its display, or a note with the tag, and never fails the build; optional references show their content. "
     "All other references, and documents without broken ones, are just as without the flag, and other mistakes still fail the build.",
     ["inputs", "configurations"], "all sets of documents with and without broken references and other mistakes",
     "A broken reference may be anywhere a title or display is used, also in listings and other references.",
     ["reference.go", "stages/collect.go", "render/html.go", "booklitcmd/command.go"],
     [("resolving", "reference.go")],
     "model-based and metamorphic testing: builds with the flag against the model and against builds without it", MODEL)

prop("C28", "An included file is a section like one written in its place",
     "Including a file gives the same pages as a section with its text in that place, whatever its name, directory and modification time, and however the path is spelled, relative to the file with the call; the same file may be included many times. "
     "A file that includes itself, also by way of others, or does not exist is an error, and not an endless loop.",
     ["inputs"], "all trees of files which include each other, and how paths are spelled",
     "Parsed files are cached and paths resolved along chains of includes, which tests have one level of.",
     ["baselit/plugin.go", "load/processor.go", "section.go"],
     [("including", "baselit/plugin.go"), ("cache of parsed files", "load/processor.go"), ("path of a section's file", "section.go")],
     "metamorphic testing: a site against itself in one file; and model-based testing of graphs of includes", MODEL)

prop("C29", "Slow calls are reported while they run, and this changes nothing",
     "With a threshold for slow calls, each call that takes longer, also within others or when it fails, is reported once while it still runs, and once when it has ended, with its name, file and line, how long it took, and the text of the line. "
     "Calls that take less, and any calls with no threshold, are not reported, and results and errors are the same as without.",
     ["inputs", "schedules", "configurations"], "all documents with slow calls, and all thresholds",
     "A report comes from another goroutine while the call runs; tests have no slow calls.",
     ["stages/evaluate.go", "errors.go", "booklitcmd/command.go", "load/processor.go"],
     [("timing of calls", "stages/evaluate.go"), ("showing the line", "errors.go")],
     "property-based testing with calls that wait for their own report, and a reference model of the result",
     "Random search; calls end only once they are reported, so nothing depends on how fast the machine is, except for a limit of 30 s.")
