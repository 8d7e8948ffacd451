#!/usr/bin/env python3
# Source of properties.jsonl: edit here, run, commit both.
import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
M="src/main.go";CA="src/cache/cache.go";FI="src/util/files.go";HT="src/http/http.go";WI="src/wikipedia/wikipedia.go";CO="src/config/config.go";GH="src/generator/html.go";GE="src/generator/expand.go";EP="src/generator/epub.go";ST="src/generator/stats.go";CM="src/util/cmd.go";SV="src/image/svg.go";IM="src/image/image.go"
PA="src/parser/"

p("B01","Every listed article becomes exactly one chapter, in project order",
 "For every project, the book converter receives exactly one chapter document per entry of the project's article list (an article listed twice appears twice), in list order, and each document is the chapter of exactly that article: its title as main heading and its own text. This holds for every number of worker threads, every list length and every order in which downloads complete.",
 ["schedules","inputs","configurations"],"all article lists (including duplicates, similar titles and special characters), all worker counts, all completion orders of the downloads",
 "No test drives the project command at all; the assembly happens in main between goroutines, and the order in which they finish is up to the network.",
 [M,GH],[("work distribution over a channel and an index-addressed result slice","src/main.go: generateBookFromArticles"),("wait group before conversion","src/main.go: generateBookFromArticles")],
 ["argument vector and documents seen by a recording converter","requests seen by the fake wiki"])
p("B02","The produced book does not depend on thread count, timing or cache state",
 "For a fixed project, configuration and wiki content, the chapter documents, the files they refer to and the statistics output are byte-identical no matter how many worker threads run, how slowly or in which order the wiki answers, and whether the cache was empty or already filled by an earlier identical run. Each downloaded image is converted and compressed exactly once, also when several articles being processed at the same time use it.",
 ["schedules","histories"],"all worker counts, response delays and orders, and cold/warm/partly warm caches",
 "Unit tests run one goroutine on one canned response; they never run the pipeline twice or in parallel.",
 [M,WI,CA,GH,ST],[("global cache lock","src/cache/cache.go"),("one tokenizer and generator per article","src/main.go: processArticle"),("index-addressed results","src/main.go")],
 ["bytes of chapter documents, images and stats in the cache and output directories","invocation log of the recording image tools"])
p("B03","Processing articles in parallel is free of data races",
 "While several articles are processed concurrently, sharing images, templates, formulas and the cache, no two threads access the same memory without synchronisation where one of them writes.",
 ["schedules"],"all interleavings of worker threads over articles that share images, templates and math",
 "The tests contain no goroutines and are not run with a race detector over the pipeline.",
 [M,CA,HT,WI,CO],[("global cache lock","src/cache/cache.go"),("per-article tokenizer/generator state","src/parser/tokenizer.go, src/generator/html.go"),("configuration frozen before the workers start","src/main.go")],
 ["Go race detector reports of the real binary and of the cache under stress"])
p("F01","A failed download or tool call never ends in a claimed success",
 "If fetching an article, a template expansion, a formula or an image (from its last source) fails for good - connection error, HTTP status other than 200, MediaWiki API error header, truncated body or non-JSON API answer - or an external program (image tool, converter) fails, the run exits with a non-zero status, reports no success, and leaves a previously existing output file unchanged. When the failure precedes the conversion, the converter is never started.",
 ["fault_sequences","schedules"],"every request or external command of a run failing in every one of those ways, at any worker count",
 "Tests mock a handful of single failing calls in isolation; none observes the exit status, the converter or the output file of a whole run.",
 [M,HT,WI,EP,CM,CA],[("status and API-error-header check","src/http/http.go: doRequest"),("FatalCheck on every step","src/main.go"),("exit status of external commands","src/util/cmd.go")],
 ["exit status, log, recording converter, output file"])
p("F02","A failed or killed run leaves a cache from which the next run recovers",
 "After any run that failed (any faulty HTTP response, any failing tool) or was killed at any moment, running the same command again with a healthy wiki succeeds and produces exactly the book an undisturbed run produces. In particular no error page, partial body or unparsable API answer is ever kept in the cache as if it were content.",
 ["fault_sequences","crash_points"],"every request position x fault kind, and SIGKILL at every request, external command and cache-file operation",
 "Needs crashes and faults in the middle of a real run followed by a second run; the tests never run anything twice.",
 [HT,CA,WI,M],[("temp file + rename","src/cache/cache.go: CacheToFile"),("only 200 responses reach the cache","src/http/http.go"),("temp dir cleared at start","src/main.go: ensurePathsAndClearTempDir")],
 ["cache directory contents and second run's book, compared to an undisturbed run"])
p("C01","A cache entry is always a complete document, or absent",
 "A file in the cache is at every moment either absent or holds one complete body that was handed to the cache for that name: readers running concurrently with writers never see a partial or mixed file, and a store that fails (source stream error, full disk, failed rename, any failing filesystem call) reports an error and leaves the previous entry intact or absent. A store that reports success has stored exactly the bytes it was given, and leaves no temporary file behind.",
 ["schedules","fault_sequences","crash_points"],"all interleavings of readers and writers of the same names, and failure of every single filesystem operation or of the source stream at every offset",
 "Tests store one small string once with a mocked filesystem; no concurrent access, no fault at each operation.",
 [CA,FI],[("write to temp file, then rename","src/cache/cache.go: CacheToFile"),("cache lock","src/cache/cache.go")],
 ["bytes read by concurrent readers; directory state after every injected fault; returned errors"],None)
p("C02","The cache respects its size limit and evicts by the configured strategy",
 "With a limiting eviction strategy, after every successful store the total size of all cache entries is at most the configured maximum, no matter how often names are overwritten with bodies of other sizes; entries are only removed if the limit requires it, and the removed entries are the least recently stored or used ones ('lru') or the largest ones ('largest'). With strategy 'none' nothing is ever removed because of size.",
 ["histories","configurations"],"all sequences of stores, overwrites and lookups with arbitrary sizes, limits and strategies",
 "Tests mock the directory listing and check one eviction step each; they never run a history against real files and never sum the sizes afterwards.",
 [CA,FI],[("eviction loop before rename","src/cache/cache.go: deleteFilesFromCacheIfNeeded"),("directory scans","src/util/files.go: DirSizeInBytes, FindLargestFile, FindLruFile"),("touch on lookup","src/cache/cache.go: GetFile")],
 ["directory listing after every operation, compared to a reference model of the cache"])
p("C03","Cached content is reused while fresh and never used once outdated",
 "A resource that was downloaded is served from the cache - no request is made for it again - in the same and in every later run as long as its cache file is not older (by its modification time, in whole minutes) than the configured maximum age; a file older than that is never used, it is fetched again and replaced. A second identical run with a fresh cache makes no request at all.",
 ["histories","inputs"],"all resource kinds (articles, templates, images, redirected images, formulas), file ages around the limit, repeated use within and across runs",
 "Tests check one age value with a mocked stat; none counts requests over whole runs.",
 [CA,HT,WI],[("age check on lookup","src/cache/cache.go: isOutdated, GetFile"),("lookup before request","src/http/http.go: DownloadAndCache; src/wikipedia/wikipedia.go: getMathResource")],
 ["request log of the fake wiki; file times in the cache"])
p("C04","Different resources never share a cache file, and none leaves the cache folder",
 "Any two different names of the same kind are stored in different files and each lookup returns exactly the body stored for its own name, and every cache file lies directly in its kind's folder inside the cache directory, whatever characters the name contains (slashes, dots, percent signs, quotes, Unicode) and however long it is. Two runs' or two articles' resources with similar names are never mixed up.",
 ["inputs"],"all non-empty names of titles, images, templates and formulas up to the file name length limit ('.' and '..', which are no valid names in a wiki, excepted)",
 "A few fixed names are checked; injectivity and containment quantify over all pairs of names.",
 [FI,CA,WI,PA+"template.go"],[("percent-encoding of special characters","src/util/files.go: SanitizeFilename"),("content hash as name for templates and math","src/util/hash.go")],
 ["paths and bytes after storing many adversarial names; served chapters for adversarial titles"])
p("H01","Rate-limited requests are repeated unchanged after the announced wait",
 "When the wiki answers 429, the very same request (method, URL, headers, body) is sent again until another status arrives, each time not before the announced number of seconds has passed (two seconds if the announcement is missing or not a number), for GET and POST requests alike and for any number of 429s in a row; the run's result is the same as if no 429 had occurred. A 429 body is never stored.",
 ["fault_sequences","inputs"],"all sequences of 429 answers with arbitrary wait announcements, at any request of any kind",
 "One test replaces the sleep function and checks a single GET retry with a mocked client; request bodies and whole runs are not observed.",
 [HT],[("retry loop","src/http/http.go: doRequest")],
 ["request log with virtual timestamps (Go's synctest clock), bodies received, cache content"])
p("H02","Every request carries exactly what the user asked for, to the configured host",
 "Each request the program makes goes to a configured host and decodes, on the server side, to exactly the page title, template text, formula or image file name it was made for, whatever characters they contain; redirected images are fetched under their target name, from the path the image host uses for that wiki and name, hosts being tried in configured order. Each request carries the configured user agent with the version filled in.",
 ["inputs","configurations"],"all titles, template texts, formulas, image names (Unicode, &, +, %, ?, #, quotes, spaces), host configurations",
 "Tests compare a few URLs of plain names as strings; encoding quantifies over all strings.",
 [WI,HT],[("query escaping","src/wikipedia/wikipedia.go"),("md5 path of the image host","src/wikipedia/wikipedia.go: downloadImage"),("user agent header","src/http/http.go")],
 ["decoded requests at the fake wiki"])
p("P01","No wikitext crashes or hangs the program",
 "For every input text as article content or as template result - truncated, unbalanced, nested, binary - converting an article terminates and either yields a chapter or reports an error; it never panics and never loops forever.",
 ["inputs"],"all byte strings as wikitext (bounded length per run)",
 "Tests feed well-formed snippets; robustness is about every other string.",
 [PA+x for x in ["tokenizer.go","cleaner.go","link.go","image.go","table.go","list.go","reference.go","nowiki.go","template.go","formatting.go"]]+[GE],
 [("bounds checks around every closing-token search","src/parser/util.go and callers"),("fixpoint loop of the tokenizer","src/parser/tokenizer.go: tokenizeContent")],
 ["outcome (result, error, panic, CPU budget exceeded) of converting generated texts"])
p("P02","Chapters are well-formed and free of internal placeholders",
 "In every chapter document produced from wikitext whose own HTML tags are balanced, every opening tag is closed in properly nested order, and no internal token, marker or placeholder text of the program appears anywhere in it. The document has exactly one title heading, holding the article's title.",
 ["inputs"],"all articles composed of the supported wikitext constructs in any nesting",
 "Tests compare the output of isolated constructs; leaks and mis-nesting arise from combinations.",
 [GH,GE,PA+"tokenizer.go",PA+"formatting.go"],[("recursive token expansion","src/generator/expand.go"),("crossover repair of bold/italic","src/parser/formatting.go")],
 ["strict tag-stack scan of the generated documents"])
p("P03","No readable text is lost, duplicated or reordered",
 "Every word of readable article text - in paragraphs, headings, list items, table cells and captions, image captions, link texts, references, formatted text and evaluated templates - appears in the chapter exactly as often as in the source and in the source's order (reference texts at their reference list). Only what is documented as removed (comments, categories and other unwanted links, ignored templates and media, empty sections) is missing.",
 ["inputs"],"all articles composed of supported constructs in any order and nesting",
 "Conservation and order of text over arbitrary compositions; tests check single constructs.",
 [PA+x for x in ["tokenizer.go","cleaner.go","link.go","table.go","list.go","reference.go","formatting.go"]]+[GE,GH],
 [("every parsed fragment becomes a token that is expanded once","src/parser/*.go, src/generator/expand.go")],
 ["sequence of unique marker words in source and chapter"])
p("P04","Bold and italic cover exactly the words they cover in the source",
 "For every text whose bold and italic markers are balanced - in any nesting, adjacency or overlap, across links, lists, tables and templates - each word is bold in the chapter if and only if it is between bold markers in the source, and likewise italic, and the emitted formatting elements are properly nested. No marker characters remain in the text.",
 ["inputs"],"all sequences of bold/italic/bold-italic spans including overlapping ones",
 "Tests enumerate a few dozen fixed strings; overlaps need crossover repair whose correctness depends on the whole sequence.",
 [PA+"formatting.go",GH],[("backtracking parse with crossover repair","src/parser/formatting.go: tokenizeBoldAndItalic")],
 ["style set of every word in the parsed chapter"])
p("P05","References are numbered consistently and each is listed exactly once",
 "Within each reference group, usages are numbered from 1 in order of first appearance, repeated usages of one named reference show the same number, and at the group's reference list each reference used so far and not yet listed appears exactly once, in number order, with its own text next to its number. This holds for named, unnamed, grouped and list-defined references, definitions before or after the first usage, any attribute quoting, and several reference lists.",
 ["inputs"],"all sequences of reference definitions, usages, groups and lists",
 "The numbering is state threaded through the whole article; tests fix a few sequences.",
 [PA+"reference.go",GH],[("per-group counters and name maps","src/parser/reference.go: parseReferences")],
 ["numbers and texts in the chapter against a reference model"])
p("P06","Tables keep their grid: every cell in its row and column with its spans",
 "For every well-formed wikitext table, the chapter's table has the same rows, the same cells in the same order, data and header cells kept apart, row and column spans and text alignment preserved, the caption attached, and every cell's content (including lists, nested tables, links, images, formatting, several lines) inside its own cell.",
 ["inputs"],"all tables: inline and multi-line cells, header rows and columns, attributes, captions, nesting, empty cells",
 "Tests fix a few tables; cell boundaries depend on everything that may be inside a cell.",
 [PA+"table.go",GH],[("line-based table tokenizer","src/parser/table.go"),("TABLE templates","src/generator/html.go")],
 ["table grids of the parsed chapter against a reference model"])
p("P07","Lists keep their items, kinds and nesting",
 "For every wikitext list - bulleted, numbered, description, mixed and nested to any depth - the chapter's list has the same items in the same order at the same depth with the same kind, sub-lists attached to the item they belong to, and neither item text nor list is split, merged or dropped. An item that brings its own li tag ('# <li value=4> text') keeps its number and is the same kind of item, sub-lists included. Empty items are removed and nothing else.",
 ["inputs"],"all sequences of list lines over the four list prefixes",
 "Nesting is a function of whole line sequences; tests fix a few.",
 [PA+"list.go",PA+"cleaner.go",GH],[("recursive list tokenizer","src/parser/list.go: tokenizeList")],
 ["list trees of the parsed chapter against a reference model"])
p("P08","Headings, sections and paragraphs keep the article's structure",
 "Every section heading with content below it appears at the level given in the source, in order and with its text; sections without any content are removed together with their heading, and no heading above a non-empty section or deeper heading is removed. Paragraphs of running text separated by blank lines stay separated, lines of one paragraph stay together, and no paragraph break is added beside lists, tables and images.",
 ["inputs"],"all sequences of headings of all levels, paragraphs, blocks and blank lines",
 "Section emptiness depends on everything up to the next heading; tests fix a few sequences.",
 [PA+"heading.go",PA+"cleaner.go",PA+"formatting.go",GH],[("empty section removal","src/parser/cleaner.go: removeEmptySections"),("heading tokenizer","src/parser/heading.go"),("paragraph markers","src/parser/formatting.go: parseParagraphs")],
 ["heading/paragraph sequence of the parsed chapter against a reference model"])
p("P09","Every image of a chapter is downloaded and its reference resolves",
 "Each image of an article (inline, thumbnail, gallery, image map, inside tables, lists, captions, templates) that is not of an ignored media type appears once in the chapter at its position with its size (the last one, if several are given) and, for thumbnails, its caption (the last parameter which is neither a size nor one of the ignored ones, even if it starts with the name of such a one), whatever configured file prefix it is written with, and its source path resolves - after URL decoding, relative to the cache directory - to an existing file which stems from that image's download, converted to PNG where conversion is configured. Images of ignored types are neither shown nor downloaded.",
 ["inputs","configurations"],"all image names (spaces, Unicode, reserved characters, upper/lower case, redirects, any extension), options and conversion settings",
 "Name handling happens in four places that must agree for every name; tests check a few plain names in isolation.",
 [PA+"image.go",WI,GH,FI],[("name normalisation","src/parser/image.go: escapeImages"),("download under sanitised name","src/wikipedia/wikipedia.go: downloadImage"),("path escaping","src/generator/html.go: filenameToImagePath, escapePathComponents")],
 ["img elements of the chapter, files in the cache, requests at the fake wiki"])
p("P10","Templates are expanded once per use, in place, with nested calls resolved",
 "Every template call of an article, including calls nested in arguments of others to any depth and repeated calls, is replaced at its position by the wiki's expansion of exactly that call, and the expansion's wikitext is rendered like article text. Calls of ignored templates vanish without a request, calls of trailing templates are moved behind the article's end with their arguments, and all other text stays untouched.",
 ["inputs","configurations"],"all nestings and repetitions of template calls, all ignore/trailing lists",
 "Tests expand single fixed templates; substitution through placeholders must work for all nestings.",
 [PA+"template.go",PA+"cleaner.go",WI],[("innermost-first evaluation with placeholders","src/parser/template.go"),("ignored and trailing templates","src/parser/cleaner.go: handleUnwantedAndTrailingTemplates")],
 ["expansion requests at the fake wiki and chapter text against a reference evaluator"])
p("P11","Links show their text, and unwanted links disappear completely",
 "For every internal link the chapter shows exactly its display text (or its target, without section part, if it has none) and nothing else of the link; every external link with text becomes a hyperlink with exactly its target and text, bracketed text that is no link stays as it is. Category links and links with not allowed prefixes are removed entirely while links with a leading colon, allowed prefixes or no prefix stay.",
 ["inputs","configurations"],"all link targets, texts, prefixes and prefix configurations, in all positions",
 "Tests fix a few links; prefix rules and bracket matching quantify over all surrounding text.",
 [PA+"link.go",PA+"cleaner.go",GH],[("link tokenizer","src/parser/link.go: parseLink"),("prefix rules","src/parser/cleaner.go: removeUnwantedInternalLinks")],
 ["anchor elements and words of the chapter against a reference model"])
p("P12","Each formula is shown as its own rendering with the rendering's size",
 "Every formula of an article appears exactly once at its position as an image whose path resolves to the downloaded (or converted) rendering of exactly that formula, with width, height and style taken from its SVG rendering, for every math converter setting. Equal formulas are submitted for rendering once per cache lifetime, different formulas never share a rendering.",
 ["inputs","configurations"],"all formula texts (any characters), repetitions, math converter settings",
 "Tests mock one formula; identity of formula and image over the request chain is not observed.",
 [PA+"math.go",WI,GH,SV],[("check/render request chain","src/wikipedia/wikipedia.go: RenderMath, getMathResource"),("svg attribute reader","src/image/svg.go")],
 ["math img elements, files and requests"])
p("P13","Literal text stays literal and comments vanish",
 "Text between nowiki tags appears in the chapter character by character, with no wikitext inside it interpreted by the tokenizer; comments disappear completely, together with anything inside them, and text around them, including stray comment brackets outside comments, is kept.",
 ["inputs"],"all nowiki and comment contents and positions",
 "Tests fix a few strings.",
 [PA+"nowiki.go",PA+"cleaner.go",GE],[("nowiki tokens taken first","src/parser/nowiki.go"),("comment removal","src/parser/cleaner.go: removeComments")],
 ["literal strings in the chapter"])
p("S01","Statistics count exactly what the articles contain",
 "For every article the statistics output counts its characters and words of readable text, internal links, external links, images, formulas, reference definitions and reference usages exactly - also inside nested lists, tables, captions and references - and the combined statistics are the sums over all listed articles. The uncovered links are exactly the link targets that are not articles of the book with their total numbers of occurrences, the top lists hold those with the highest counts, and the text output lists the articles in project order.",
 ["inputs","schedules"],"all articles and books, all worker counts",
 "Tests check single tokens of the counter; sums over composed articles and several workers are never compared to a count of the source.",
 [ST,M],[("counting expansion handler","src/generator/stats.go"),("combination of per-article files","src/generator/stats.go: GenerateCombinedStats")],
 ["stats JSON and text files against a reference count"])
p("G01","Command line overrides project file overrides config file overrides default",
 "For every configuration option, the value used by the run is the one from the command line if given there with a value other than the default, else the one from the project file under the same condition, else the one from the config file, else the default; setting one option never changes another. This holds for list options including the order and multiplicity of their elements.",
 ["configurations"],"all options x all subsets of the three sources x values",
 "Tests merge a few options at one level; the full lattice of options and sources is not enumerated.",
 [CO,M,"src/config/project.go","src/util/collections.go"],[("merge of non-default values","src/config/config.go: MergeIntoCurrentConfig"),("load order","src/main.go")],
 ["effective configuration printed by the program and its effects (arguments, requests)"])
p("G02","Invalid configurations are rejected before anything happens",
 "A configuration with an invalid value from any source - unknown output type, driver, math converter or eviction strategy, incompatible type and driver, toc depth outside 0-6, fewer than one worker, non-positive cache limits, command templates without their placeholders - or an unreadable or malformed config or project file makes the run end with a non-zero status before any request, cache or output file is made; every valid combination is accepted.",
 ["configurations"],"all invalid values x sources, and all valid combinations",
 "Tests call the validator on single values; sources and side effects are not observed.",
 [CO,M],[("AssertValidity after every merge","src/config/config.go")],
 ["exit status, request log, created files"])
p("G03","Relative paths mean what the documentation says, from any directory",
 "Relative paths given in a config file are resolved against the config file's directory, those in a project file against the project file's directory, for cache directory, style, cover, data directory, converter executable (unless it is a bare name), fonts and output file, absolute paths are used as they are, and the result is independent of the directory the program is started from. No file is created outside the cache directory and the output path.",
 ["configurations"],"all combinations of working, config, project directories and relative/absolute paths, with blanks and Unicode in them",
 "Path resolution depends on process state (working directory changes for projects) that unit tests do not vary.",
 [CO,FI,M],[("makePathsAbsolute","src/config/config.go"),("chdir to project dir","src/main.go: generateProjectEbook")],
 ["effective configuration, files created, converter arguments"])
p("E01","The converter is called once with exactly the configured book parameters",
 "A successful EPUB run with the pandoc driver starts the configured converter exactly once, after all chapters are complete, with the configured output format, output file, all metadata values unaltered, table-of-contents depth, data directory, style, cover and every font, each as one argument exactly when set, followed by the chapter files, in the cache directory. All files passed exist at that moment.",
 ["configurations","inputs"],"all metadata strings (blanks, quotes, =, Unicode, empty), all option combinations",
 "The converter call is not tested.",
 [EP,CM,M],[("argument vector","src/generator/epub.go: GenerateEpubWithPandoc")],
 ["argument vector, working directory and file existence seen by a recording converter"])
p("E02","External image tools are run exactly as configured, once per image",
 "For each downloaded image the configured command of its kind (SVG, PDF, WebP conversion, math conversion, processing of the raster image) is run with input and output placeholders replaced by that image's files, every other word of the command unchanged and every path passed as one argument even if it contains blanks; a kind whose command is configured empty is not run, processing is run for raster results only, and images already in the cache are not processed again.",
 ["configurations","inputs","histories"],"all command templates, image kinds, names, cache directories with blanks, repeated runs",
 "Tests only count mocked calls.",
 [IM,CM,WI],[("placeholder substitution","src/image/image.go"),("command splitting","src/util/cmd.go"),("choice of conversion","src/wikipedia/wikipedia.go: postProcessImage")],
 ["argument vectors recorded by stand-in tools"])
p("E03","The built-in EPUB writer yields a complete, ordered EPUB",
 "With the internal driver, the written EPUB is a readable archive whose sections are the chapters in project order, each with the chapter's title and full content, with the configured title, author and language as metadata and the cover, style and fonts embedded.",
 ["inputs","configurations"],"all books and metadata with the internal driver",
 "The EPUB writer is not tested.",
 [EP],[("section per chapter","src/generator/epub.go: GenerateEpubWithGoLibrary")],
 ["unzipped EPUB: spine, documents, metadata"])
p("V01","SVG size fixing changes sizes from the view box and nothing else",
 "With the SVG size option on, a downloaded SVG whose width or height is relative gets the view box's width and height in pt in place of the old values; every other byte of the file is unchanged, files with absolute sizes, without usable view box or unparsable stay byte-identical, and applying it again changes nothing. With the option off no SVG is changed.",
 ["inputs"],"all SVG headers: units, percentages, missing attributes, separators, namespaces",
 "Tests fix a few files.",
 [SV,WI],[("attribute replacement","src/image/svg.go: MakeSvgSizeAbsolute")],
 ["file bytes before and after"])
p("A01","The commands agree on what an article looks like",
 "For the same wikitext, title and configuration, the article, standalone and project commands hand the converter the same chapter document with the same image files and the same options other than metadata and output; the article and project commands yield the same statistics. The standalone command takes the file name without its last extension as title. None of this depends on the logging level, the diagnostics options, the working directory or on running the command again on the same cache. All three commands reuse an HTML file html/TITLE.html in the working directory unless told to regenerate it.",
 ["inputs","configurations","histories"],"all articles, titles, commands, logging levels, diagnostics options, working directories and repeated runs",
 "No test runs any command; standalone has its own copy of the pipeline in main.",
 [M,GH,EP],[("standalone pipeline","src/main.go: generateStandaloneEbook"),("article and project pipeline","src/main.go: generateBookFromArticles, processArticle"),("choice of title","src/main.go: generateStandaloneEbook")],
 ["chapter documents, images and options seen by a recording converter","statistics files"])
p("W01","Output goes to the requested place and nothing else is touched",
 "A successful run writes its output to the file given with -o or in the project's output-file (relative to the working directory respectively the project's folder; missing folders are created), into a given existing folder under the default name of the output type, and without any of them to the default name in the working directory respectively the project's folder; a statistics output whose name does not end in json respectively txt is replaced by the default name. The success message names that file. Apart from the output, the cache's own folders and requested diagnostics files, no run - successful or failing - creates, changes or removes any file; temporary files are gone after success, and a failing run leaves an older output as it was.",
 ["configurations","histories"],"all commands, output types, output and cache paths, earlier contents of the folders involved, and failing runs",
 "No test runs any command or looks at the file system around it.",
 [M,CA,FI,CO],[("output path rules","src/main.go: ensurePathsAndClearTempDir, initialize, generateProjectEbook"),("cache folders","src/cache/cache.go"),("absolute paths","src/util/files.go: ToAbsolutePath")],
 ["snapshot of the whole scratch world before and after a run","the program's success message"])
p("R01","Parallelism and open resources stay within the configured workers",
 "A project run processes as many articles at the same time as worker threads are configured (or as it has articles), and never more; other commands process one. So no more requests wait for an answer and no more image tools run at the same time. Connections, files and processes are given back after use, also after missing pages, error statuses and rate limits: the number of connections and files open at the same time depends on the number of workers and hosts, never on the number of articles, images or failed requests, so a run of any length succeeds under a limit of open files that suffices for its workers.",
 ["inputs","schedules","configurations"],"all project lengths, worker counts, hosts and histories of failing answers",
 "Tests use mocked responses without connections and no goroutines.",
 [M,HT,WI,CA,CM],[("worker pool","src/main.go: generateBookFromArticles"),("response bodies","src/http/http.go: doRequest, DownloadAndCache; src/wikipedia/wikipedia.go: getMathResource"),("file handles","src/cache/cache.go")],
 ["requests waiting and connections open at the server","start and end of image tools","success under a limit of open files"])
p("L01","Every configured word has its documented effect",
 "Whatever words are configured - of any script and letter case in the wikitext, with spaces or characters that are special in patterns, given by configuration file, project file or command line, or in the shipped configurations - each has its effect wherever it is used (paragraphs, lists, tables, galleries, image maps) and nothing else has: templates whose name begins with an ignored word vanish and are not requested, trailing templates move to the end of the article in their order, all others are expanded in place; links to files with any file prefix are pictures, of ignored media types nothing; links with category prefixes vanish unless linked with a leading colon; links keep their text when all their prefixes are allowed and vanish otherwise; ignored image parameters (with or without value) are no captions, while captions that only begin alike stay.",
 ["inputs","configurations"],"all vocabularies, letter cases and places of use",
 "Tests use one fixed German vocabulary and few words of it, each alone.",
 ["src/parser/cleaner.go","src/parser/image.go",CO],[("ignored and trailing templates, link prefixes","src/parser/cleaner.go: removeUnwantedInternalLinks, handleUnwantedAndTrailingTemplates"),("file prefixes and ignored parameters","src/parser/image.go, src/parser/link.go"),("shipped vocabularies","configs/de.json, configs/en.json")],
 ["order of text markers and pictures in the chapter document","template and file requests at the fake wiki"])
p("D01","A failing file operation never ends in a wrong book, also not later",
 "When any file operation of a run fails - creating, opening, reading, writing (also half-way, or from then on always, as on a full disk), renaming, removing, listing, examining or touching a file or folder in the cache, the project or the output folder - the run either still produces exactly the output of an undisturbed run, or ends with a non-zero status without reporting success, without crashing and without having started the converter with anything else; an older output is left as it was unless writing the output itself failed. The same command run again with healthy storage on the left-over cache succeeds and yields exactly the undisturbed output and cache.",
 ["fault_sequences","crash_points","histories"],"every file operation of a run x every error, partial write and full disk, for all commands and output types and for empty, filled, aged and full caches",
 "Tests mock single file system calls of the cache package; none lets a real write, rename or read fail in a whole run or runs anything afterwards.",
 [CA,FI,M,EP,"src/generator/stats.go","src/image/svg.go"],[("temporary file and rename","src/cache/cache.go: CacheToFile"),("errors of reading the cache","src/cache/cache.go: GetFile; src/wikipedia/wikipedia.go"),("replacing converted files","src/image/image.go, src/image/svg.go"),("writing the output","src/generator/epub.go, src/generator/stats.go")],
 ["recorded file operations of the program with the injected failure","exit status, messages, converter calls and output","output and cache of the next run"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
