From e0f530bc1d15c4fce9022b44efb09f4f8f961d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:52 +0000
Subject: [PATCH 01/89] fix: process articles listed several times in a project
 once per entry

The workers looked up the slot of an article by its name, so a repeated
entry overwrote the first slot (also concurrently) and left an empty path
for the repeated one, which made the converter fail.
---
 src/main.go | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/main.go b/src/main.go
index 1b2010f..4ccf24f 100644
--- a/src/main.go
+++ b/src/main.go
@@ -342,7 +342,8 @@ func generateBookFromArticles(project *config.Project) {
 	numberOfArticles := len(articles)
 	articleOutputFiles := make([]string, numberOfArticles)
 
-	articleChan := make(chan string, config.Current.WorkerThreads)
+	// The workers get the index of the article and not just its name, because a name can appear several times.
+	articleChan := make(chan int, config.Current.WorkerThreads)
 	sigolo.Debugf("Use %d worker threads to process the articles", config.Current.WorkerThreads)
 
 	wikipediaService := wikipedia.NewWikipediaService(
@@ -364,16 +365,10 @@ func generateBookFromArticles(project *config.Project) {
 		sigolo.Debugf("Start worker thread %d", i)
 
 		go func(threadNumber int) {
-			for articleName := range articleChan {
+			for articleNumber := range articleChan {
+				articleName := articles[articleNumber]
 				sigolo.Debugf("Processing article %s on thread %d", articleName, threadNumber)
 
-				articleNumber := 0
-				for ; articleNumber < len(articles); articleNumber++ {
-					if articleName == articles[articleNumber] {
-						break
-					}
-				}
-
 				thisArticleOutputFile := processArticle(articleName, articleNumber+1, numberOfArticles, wikipediaService)
 				articleOutputFiles[articleNumber] = thisArticleOutputFile
 			}
@@ -384,9 +379,9 @@ func generateBookFromArticles(project *config.Project) {
 		}(i)
 	}
 
-	for _, articleName := range articles {
+	for articleNumber, articleName := range articles {
 		sigolo.Debugf("Pass article %s to worker threads", articleName)
-		articleChan <- articleName
+		articleChan <- articleNumber
 	}
 	close(articleChan)
 
-- 
2.43.0


From e8ed085d4a46fca602296989a58219cf080a440a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:41 +0000
Subject: [PATCH 02/89] fix: send the request body again when repeating a POST
 request after status 429

The body reader was already consumed by the first attempt, so the repeated
request failed (Content-Length without body) instead of being equal to the
first one.
---
 src/http/http.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/http/http.go b/src/http/http.go
index 9db145b..3f33ff7 100644
--- a/src/http/http.go
+++ b/src/http/http.go
@@ -152,6 +152,14 @@ func (d *DefaultHttpService) doRequest(url string, request *http.Request) (*http
 			}
 			sigolo.Debugf("Received response status code %d and try request again in %d seconds", response.StatusCode, waitTime)
 			sleepFunc(waitTime)
+
+			if request.GetBody != nil {
+				// The body has been consumed by the previous attempt, so a fresh one is needed to send the same data again.
+				request.Body, err = request.GetBody()
+				if err != nil {
+					return nil, errors.Wrap(err, fmt.Sprintf("Unable to repeat %s request to url %s", request.Method, url))
+				}
+			}
 			continue
 		} else if response.StatusCode != http.StatusOK {
 			return nil, errors.Errorf("%s request to url %s failed with status code %d", request.Method, url, response.StatusCode)
-- 
2.43.0


From fdc3931a1642d40ac7251c6a71339eac89fbca73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:05 +0000
Subject: [PATCH 03/89] fix: don't count the temporary file of a new cache
 entry twice

The size of the cache folder includes the temporary file, whose size was
then added again. Files were evicted although the cache was small enough
and a file larger than half of the maximum size could not be cached.
---
 src/cache/cache.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cache/cache.go b/src/cache/cache.go
index 029f44a..f3827fc 100644
--- a/src/cache/cache.go
+++ b/src/cache/cache.go
@@ -109,6 +109,8 @@ func CacheToFile(cacheFolderName string, filename string, reader io.Reader) (str
 		}
 
 		tempFileSizeInBytes := tempFileStat.Size()
+		// The temporary file is located within the cache folder but not a cached file (yet).
+		cacheSizeInBytes -= tempFileSizeInBytes
 		err = deleteFilesFromCacheIfNeeded(cacheFolderName, filename, tempFileSizeInBytes, cacheSizeInBytes)
 		if err != nil {
 			return outputFilepath, err
-- 
2.43.0


From fc25436496c69fade7e15bc33234176c947766e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 04/89] fix: keep cache within its maximum size when the
 replaced file itself is evicted

The size difference between new and existing file was calculated once. When
the existing file was removed to make room, the new file was still counted
as if it would replace the old one.
---
 src/cache/cache.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cache/cache.go b/src/cache/cache.go
index f3827fc..65e5a2e 100644
--- a/src/cache/cache.go
+++ b/src/cache/cache.go
@@ -163,6 +163,13 @@ func deleteFilesFromCacheIfNeeded(cacheFolderName string, newFileName string, ne
 		if err != nil {
 			return err
 		}
+
+		// The removed file might have been the existing one, which is then not replaced anymore.
+		netCacheSizeChangeInBytes = newFileSizeInBytes
+		existingFileSizeInBytes, err = util.CurrentFilesystem.GetSizeInBytes(GetFilePathInCache(cacheFolderName, newFileName))
+		if err == nil {
+			netCacheSizeChangeInBytes = newFileSizeInBytes - existingFileSizeInBytes
+		}
 	}
 
 	return nil
-- 
2.43.0


From 1aa8e81364caba180138e712a04d38903a5d0e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:19 +0000
Subject: [PATCH 05/89] fix: don't crash when looking for the largest file in
 an empty cache

---
 src/util/files.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/files.go b/src/util/files.go
index d676673..44ea1a4 100644
--- a/src/util/files.go
+++ b/src/util/files.go
@@ -358,6 +358,11 @@ func (o *OsFilesystem) FindLargestFile(path string, exceptDir string) (error, in
 		return err, math.MinInt64, ""
 	}
 
+	if currentLargestFile == nil {
+		// No file was found
+		return nil, 0, ""
+	}
+
 	return nil, currentLargestFile.Size(), currentLargestFilePath
 }
 
-- 
2.43.0


From da7964f13281c15116fa07371e2634223459113e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:59 +0000
Subject: [PATCH 06/89] fix: pass image paths with blanks as one argument to
 external tools

The command template was split at blanks after the paths had been inserted,
so a cache folder (or file) with a blank in its path broke the command.
---
 src/image/image.go | 10 ++++------
 src/util/cmd.go    |  9 +++++++--
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/image/image.go b/src/image/image.go
index 5d75d7f..eaaf823 100644
--- a/src/image/image.go
+++ b/src/image/image.go
@@ -24,19 +24,17 @@ func NewImageProcessingService() ImageProcessingService {
 func (s *ImageProcessingServiceImpl) ResizeAndCompressImage(imageFilepath string, commandTemplate string) error {
 	sigolo.Tracef("Process image '%s'", imageFilepath)
 
-	commandString := strings.ReplaceAll(commandTemplate, config.InputPlaceholder, imageFilepath)
-	commandString = strings.ReplaceAll(commandString, config.OutputPlaceholder, imageFilepath)
+	replacer := strings.NewReplacer(config.InputPlaceholder, imageFilepath, config.OutputPlaceholder, imageFilepath)
 
-	err := util.ExecuteCommandWithArgs(commandString, config.Current.CacheDir)
+	err := util.ExecuteCommandTemplate(commandTemplate, replacer, config.Current.CacheDir)
 	return errors.Wrapf(err, "Converting image '%s' failed", imageFilepath)
 }
 
 func (s *ImageProcessingServiceImpl) ConvertToPng(inputFile string, pngFile string, commandTemplate string) error {
 	sigolo.Tracef("Convert '%s' to PNG '%s'", inputFile, pngFile)
 
-	commandString := strings.ReplaceAll(commandTemplate, config.InputPlaceholder, inputFile)
-	commandString = strings.ReplaceAll(commandString, config.OutputPlaceholder, pngFile)
+	replacer := strings.NewReplacer(config.InputPlaceholder, inputFile, config.OutputPlaceholder, pngFile)
 
-	err := util.ExecuteCommandWithArgs(commandString, ".")
+	err := util.ExecuteCommandTemplate(commandTemplate, replacer, ".")
 	return errors.Wrapf(err, "Converting image '%s' to PNG failed", inputFile)
 }
diff --git a/src/util/cmd.go b/src/util/cmd.go
index 59c6f63..40bc0e9 100644
--- a/src/util/cmd.go
+++ b/src/util/cmd.go
@@ -9,8 +9,13 @@ import (
 	"github.com/pkg/errors"
 )
 
-func ExecuteCommandWithArgs(commandString string, workingDirectory string) error {
-	commandParts := strings.Split(commandString, " ")
+// ExecuteCommandTemplate executes the command given as template. The parts of the template are separated by spaces. The
+// replacer is used on each part, so that replaced values always stay within one argument, even if they contain spaces.
+func ExecuteCommandTemplate(commandTemplate string, replacer *strings.Replacer, workingDirectory string) error {
+	commandParts := strings.Split(commandTemplate, " ")
+	for i, part := range commandParts {
+		commandParts[i] = replacer.Replace(part)
+	}
 	commandExecutable := commandParts[0]
 	commandArgs := commandParts[1:]
 
-- 
2.43.0


From b4ca002fca56c597c63927641be67adfee0ff4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:28 +0000
Subject: [PATCH 07/89] fix: don't crash on unclosed nowiki tags

---
 src/parser/nowiki.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/nowiki.go b/src/parser/nowiki.go
index 47914a2..8bd90a8 100644
--- a/src/parser/nowiki.go
+++ b/src/parser/nowiki.go
@@ -23,6 +23,10 @@ func (t *Tokenizer) parseNowiki(content string) string {
 
 		if util.EqualsIgnoreCase(cursor, nowikiStart) {
 			endIndex := FindCorrespondingCloseTokenIgnoreCase(content, i+nowikiStartLen, nowikiStart, nowikiEnd)
+			if endIndex == -1 {
+				// Tag is never closed -> leave it as it is
+				continue
+			}
 
 			token := NowikiToken{
 				Content: content[i+nowikiStartLen : endIndex],
-- 
2.43.0


From be9fef547a98bd850d233e97e1282737c1f0337e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:52 +0000
Subject: [PATCH 08/89] fix: handle unclosed and empty links without crashing
 or adding brackets

---
 src/parser/cleaner.go |  4 ++++
 src/parser/link.go    | 15 ++++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index a02a8f8..6862545 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -77,6 +77,10 @@ func (t *Tokenizer) removeUnwantedInternalLinks(content string) string {
 
 		if cursor == "[[" {
 			endIndex := FindCorrespondingCloseToken(content, i+2, "[", "]")
+			if endIndex == -1 || !strings.HasPrefix(content[endIndex:], "]]") {
+				// Link is never (correctly) closed -> broken wikitext, which is not considered to be a link
+				continue
+			}
 
 			totalLinkContent := content[i+2 : endIndex]
 			linkSegments := strings.SplitN(totalLinkContent, ":", -1)
diff --git a/src/parser/link.go b/src/parser/link.go
index 83c24c1..89709fe 100644
--- a/src/parser/link.go
+++ b/src/parser/link.go
@@ -1,7 +1,6 @@
 package parser
 
 import (
-	"fmt"
 	"strings"
 	"wiki2book/config"
 	"wiki2book/util"
@@ -74,6 +73,13 @@ func (t *Tokenizer) parseLink(content string, openingBrackets string, closingBra
 
 		possibleLinkWikitext := segments[0]
 
+		if len(segments) == 1 && linkType == LINK_TYPE_INTERNAL {
+			// Link is never closed -> broken wikitext, which is not considered to be a link
+			resultSegments = append(resultSegments, openingBrackets)
+			resultSegments = append(resultSegments, splitItem)
+			continue
+		}
+
 		wikitextElements := strings.Split(possibleLinkWikitext, linkDelimiter)
 		linkTarget := wikitextElements[0]
 		if removeSectionReference {
@@ -90,7 +96,7 @@ func (t *Tokenizer) parseLink(content string, openingBrackets string, closingBra
 				continue
 			}
 
-			if linkTarget[0] == ':' {
+			if strings.HasPrefix(linkTarget, ":") {
 				// A link starting with ":" indicates e.g. a link to a category. Because we have no delimiter here, the
 				// link text is the part behind the last ":".
 				linkSegments := strings.SplitN(linkTarget, ":", -1)
@@ -139,7 +145,10 @@ func (t *Tokenizer) parseLink(content string, openingBrackets string, closingBra
 			resultSegments = append(resultSegments, tokenKey)
 		} else {
 			// No actual link found, just some words in brackets:
-			resultSegments = append(resultSegments, fmt.Sprintf("%s%s%s", openingBrackets, possibleLinkWikitext, closingBrackets))
+			resultSegments = append(resultSegments, openingBrackets, possibleLinkWikitext)
+			if len(segments) > 1 {
+				resultSegments = append(resultSegments, closingBrackets)
+			}
 		}
 
 		if len(segments) > 1 {
-- 
2.43.0


From e1420aff5409d2cdbbb37e98ce5ada925322fad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:17 +0000
Subject: [PATCH 09/89] fix: keep internal links with a colon in their text

---
 src/parser/cleaner.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index 6862545..181f95f 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -83,7 +83,9 @@ func (t *Tokenizer) removeUnwantedInternalLinks(content string) string {
 			}
 
 			totalLinkContent := content[i+2 : endIndex]
-			linkSegments := strings.SplitN(totalLinkContent, ":", -1)
+			// Only the link target can have prefixes, colons in the link text are normal characters.
+			linkTarget := strings.SplitN(totalLinkContent, "|", 2)[0]
+			linkSegments := strings.SplitN(linkTarget, ":", -1)
 			allPrefixes := linkSegments[:len(linkSegments)-1]
 
 			// It's possible to link categories with a leading colon, e.g. [[:SomeCategory:SomeLinkText]]. They should
-- 
2.43.0


From 974fc7ea28172f177c76e2088d4db7800fcb250f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 10/89] fix: keep equal signs within the text of headings

---
 src/parser/heading.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/heading.go b/src/parser/heading.go
index 17473f6..3d5f2d6 100644
--- a/src/parser/heading.go
+++ b/src/parser/heading.go
@@ -21,7 +21,8 @@ func (t *Tokenizer) parseHeadings(content string) string {
 			line := strings.TrimSpace(lines[i])
 
 			if strings.HasPrefix(line, headingMediawikiMarker) && strings.HasSuffix(line, headingMediawikiMarker) {
-				headingText := strings.ReplaceAll(line, headingMediawikiMarker, "")
+				headingText := strings.TrimPrefix(line, headingMediawikiMarker)
+				headingText = strings.TrimSuffix(headingText, headingMediawikiMarker)
 				headingText = strings.TrimSpace(headingText)
 
 				token := t.getToken(TOKEN_HEADING)
-- 
2.43.0


From 12fbaeb21a38c88ad12e8891cdcb7a163ac68d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 11/89] fix: number references within headings together with
 all other references

---
 src/parser/tokenizer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.go b/src/parser/tokenizer.go
index 8220842..acd4399 100644
--- a/src/parser/tokenizer.go
+++ b/src/parser/tokenizer.go
@@ -142,8 +142,9 @@ func tokenizeContent(t *Tokenizer, content string) string {
 		content = t.parseNowiki(content)
 
 		content = t.parseBoldAndItalic(content)
-		content = t.parseHeadings(content)
+		// References first, because headings might contain references, which belong to the references of the content
 		content = t.parseReferences(content)
+		content = t.parseHeadings(content)
 		content = t.parseInternalLinks(content)
 
 		content = t.parseGalleries(content)
-- 
2.43.0


From 3f7a517bb3fdde2f153494da5b70c8757db1a6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:53 +0000
Subject: [PATCH 12/89] fix: keep internal links with a colon in their section
 name

---
 src/parser/cleaner.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index 181f95f..1feae80 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -83,8 +83,9 @@ func (t *Tokenizer) removeUnwantedInternalLinks(content string) string {
 			}
 
 			totalLinkContent := content[i+2 : endIndex]
-			// Only the link target can have prefixes, colons in the link text are normal characters.
+			// Only the link target can have prefixes, colons in the section name or link text are normal characters.
 			linkTarget := strings.SplitN(totalLinkContent, "|", 2)[0]
+			linkTarget = strings.SplitN(linkTarget, "#", 2)[0]
 			linkSegments := strings.SplitN(linkTarget, ":", -1)
 			allPrefixes := linkSegments[:len(linkSegments)-1]
 
-- 
2.43.0


From f203abb6302ea41320dd578b2ebcca09e39bb38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:58 +0000
Subject: [PATCH 13/89] fix: don't crash on unclosed reference tags

---
 src/parser/reference.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/reference.go b/src/parser/reference.go
index 1dc66db..63a674b 100644
--- a/src/parser/reference.go
+++ b/src/parser/reference.go
@@ -70,6 +70,7 @@ func (t *Tokenizer) parseReferences(content string) string {
 		if startEndIndex == -1 {
 			// XML for <ref not closed -> broken wikitext
 			sigolo.Errorf("XML element for reference start '%s' not closed (i.e. missing '%s'). Text around this location: ...%s...", refDefStart, xmlClosing, util.GetTextAround(content, i, 50))
+			continue
 		}
 
 		if referencePlaceholderEndRegex.MatchString(content[i:startEndIndex+1]) || referencePlaceholderShortRegex.MatchString(content[i:startEndIndex+1]) {
@@ -121,6 +122,7 @@ func (t *Tokenizer) parseReferences(content string) string {
 				if refEndIndex == -1 {
 					// No end token found -> probably unsupported wikitext syntax (like nested refs)
 					sigolo.Errorf("No end-part for reference start '%s' found. Text around this location: ...%s...", refDefStart, util.GetTextAround(content, i, 50))
+					continue
 				}
 				refNumberCounterForCurrentGroup, content = t.parseReferenceDefinition(content, i, startEndIndex, refEndIndex, refNumberCounterForCurrentGroup, nameAttributeValue, nameToRefNumberForCurrentGroup, refNumberToContentForCurrentGroup, cursorWithinReferencePlaceholder, refDefLongEndLen)
 			}
-- 
2.43.0


From 22b4c9f8b5bb53dd22a9cc5fcbf0638d0cf88f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:24 +0000
Subject: [PATCH 14/89] fix: support single quotes and spaces around equal
 signs in attributes of references

---
 src/parser/pattern.go   |  1 +
 src/parser/reference.go | 26 +++++---------------------
 2 files changed, 6 insertions(+), 21 deletions(-)

diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 9e991e5..eabc004 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -57,6 +57,7 @@ var (
 	referencePlaceholderShortRegex = regexp.MustCompile(`(?i)<references.*?/\s*>`) // <references />
 	referencePlaceholderStartRegex = regexp.MustCompile(`(?i)<references.*?\s*>`)  // <references group="foo" >
 	referencePlaceholderEndRegex   = regexp.MustCompile(`(?i)</references\s*>`)    // </references>
+	referenceAttributeRegex        = regexp.MustCompile(`\s([a-zA-Z]+)\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s/>"']*))`)
 )
 
 // Math
diff --git a/src/parser/reference.go b/src/parser/reference.go
index 63a674b..8abb647 100644
--- a/src/parser/reference.go
+++ b/src/parser/reference.go
@@ -249,28 +249,12 @@ func (t *Tokenizer) getGroupOrDefault(content string) string {
 // attributes. When unquoted attributes are used (e.g. as in name=foobar), the value is only interpreted until a space
 // of slash. For quoted attributes (e.g. as in name="foo bar") everything until the next quote is interpreted as name value.
 func (t *Tokenizer) getAttribute(content string, attributeName string) string {
-	if strings.Contains(content, " "+attributeName+"=\"") {
-		// Attribute with quotation
-		parts := strings.Split(content, "\"")
-		for i, part := range parts {
-			if strings.HasSuffix(part, " "+attributeName+"=") {
-				// Found attribute key, next item is the value which can be returned
-				return parts[i+1]
-			}
-		}
-	} else if strings.Contains(content, " "+attributeName+"=") {
-		// Attribute without quotation like "name=foo"
-		// The value ends with a space (separator for additional attributes) or slash (and of <ref.../>-token).
-		parts := strings.SplitN(content, " "+attributeName+"=", 2)
-		var letter rune
-		var attributeValue string
-		for _, letter = range parts[1] {
-			if letter == '/' || letter == ' ' || letter == '>' {
-				break
-			}
-			attributeValue += string(letter)
+	// Go through all attributes, so that the content of a quoted value is not mistaken for an attribute.
+	for _, match := range referenceAttributeRegex.FindAllStringSubmatch(content, -1) {
+		if match[1] == attributeName {
+			// Only one of the groups (double quotes, single quotes, no quotes) contains something
+			return match[2] + match[3] + match[4]
 		}
-		return attributeValue
 	}
 
 	// Attribut not found
-- 
2.43.0


From 46ea0b84d3b8ce55972ebc20f51a8a12f961af1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:51 +0000
Subject: [PATCH 15/89] fix: don't crash on tables without end

---
 src/parser/table.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/parser/table.go b/src/parser/table.go
index 9595b5b..ce163bc 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -116,6 +116,11 @@ func (t *Tokenizer) tokenizeTable(content string) TableToken {
 		} else if isHeadingStart {
 			rowToken, i = t.tokenizeTableRow(lines, i)
 		} else if isRowStart {
+			if i+1 >= len(lines) {
+				// broken table without end
+				break
+			}
+
 			if strings.HasPrefix(lines[i+1], "!") {
 				// this table row is a heading
 				rowToken, i = t.tokenizeTableRow(lines, i+1)
@@ -168,11 +173,12 @@ func (t *Tokenizer) tokenizeTableRow(lines []string, i int) (TableRowToken, int)
 
 		// Collect all normal text rows until the next row or column starts.
 		i++
-		for l := strings.TrimSpace(lines[i]); !strings.HasPrefix(l, "|") && !strings.HasPrefix(l, "!"); {
+		for ; i < len(lines); i++ {
+			l := strings.TrimSpace(lines[i])
+			if strings.HasPrefix(l, "|") || strings.HasPrefix(l, "!") {
+				break
+			}
 			line += "\n" + l
-
-			i++
-			l = lines[i]
 		}
 		// Now the index is at the start of the next column/row -> reduce by 1 for later parsing.
 		i -= 1
@@ -217,11 +223,12 @@ func (t *Tokenizer) tokenizeTableCaption(lines []string, i int) (TableCaptionTok
 
 	// collect all lines from this caption
 	i++
-	for l := strings.TrimSpace(lines[i]); !strings.HasPrefix(l, "|") && !strings.HasPrefix(l, "!"); {
+	for ; i < len(lines); i++ {
+		l := strings.TrimSpace(lines[i])
+		if strings.HasPrefix(l, "|") || strings.HasPrefix(l, "!") {
+			break
+		}
 		captionLines += "\n" + l
-
-		i++
-		l = strings.TrimSpace(lines[i])
 	}
 
 	captionLines = strings.TrimPrefix(captionLines, "|+")
-- 
2.43.0


From 7293d7767ef910a34541132a4cbd645be27dec02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:56 +0000
Subject: [PATCH 16/89] fix: keep table heading cells with several lines of
 text as headings

---
 src/parser/table.go | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/parser/table.go b/src/parser/table.go
index ce163bc..552e9b2 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -167,6 +167,9 @@ func (t *Tokenizer) tokenizeTableRow(lines []string, i int) (TableRowToken, int)
 			break
 		}
 
+		// The first line of a cell determines whether it's a heading, further text lines might follow.
+		isHeading := strings.HasPrefix(line, "!")
+
 		line = strings.TrimPrefix(line, "|")
 		line = strings.TrimPrefix(line, "!")
 		line = strings.TrimSpace(line)
@@ -186,18 +189,10 @@ func (t *Tokenizer) tokenizeTableRow(lines []string, i int) (TableRowToken, int)
 		tokenizedLine, attributeToken := t.tokenizeTableEntry(line)
 		tokenizedLine = strings.TrimSpace(tokenizedLine)
 
-		var token TableColToken
-		if strings.HasPrefix(strings.TrimSpace(lines[i]), "!") {
-			token = TableColToken{
-				Attributes: attributeToken,
-				Content:    tokenizedLine,
-				IsHeading:  true,
-			}
-		} else {
-			token = TableColToken{
-				Attributes: attributeToken,
-				Content:    tokenizedLine,
-			}
+		token := TableColToken{
+			Attributes: attributeToken,
+			Content:    tokenizedLine,
+			IsHeading:  isHeading,
 		}
 
 		columnTokens = append(columnTokens, token)
-- 
2.43.0


From 33dd0f605f84d8d1db6f7eed7a134b3946405d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 17/89] fix: split table cells only in lines with cells and
 don't mistake cell text for rows

---
 src/parser/table.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/parser/table.go b/src/parser/table.go
index 552e9b2..2447daf 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -93,10 +93,19 @@ func (t *Tokenizer) tokenizeTables(lines []string, i int) (string, int) {
 
 // tokenizeTable expects content to be all lines of a table.
 func (t *Tokenizer) tokenizeTable(content string) TableToken {
-	// ensure that each entry starts in a new row
-	content = strings.ReplaceAll(content, "||", "\n|")
-	content = strings.ReplaceAll(content, "!!", "\n!")
-	lines := strings.Split(content, "\n")
+	// Ensure that each entry starts in a new row. Only lines starting with a cell can contain further cells. The space
+	// prevents cells like "-5" from being interpreted as the start of a new row.
+	var lines []string
+	for _, line := range strings.Split(content, "\n") {
+		trimmedLine := strings.TrimSpace(line)
+		if strings.HasPrefix(trimmedLine, "!") {
+			line = strings.ReplaceAll(line, "!!", "\n! ")
+			line = strings.ReplaceAll(line, "||", "\n! ")
+		} else if strings.HasPrefix(trimmedLine, "|") {
+			line = strings.ReplaceAll(line, "||", "\n| ")
+		}
+		lines = append(lines, strings.Split(line, "\n")...)
+	}
 
 	var rowTokens []TableRowToken
 	var captionToken TableCaptionToken
-- 
2.43.0


From da3f5ccfe6c2dc86026fc2630157c11dbf0971e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 18/89] fix: keep text behind further pipes in table cells

---
 src/parser/table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/table.go b/src/parser/table.go
index 2447daf..9ac83bf 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -252,7 +252,7 @@ func (t *Tokenizer) tokenizeTableCaption(lines []string, i int) (TableCaptionTok
 func (t *Tokenizer) tokenizeTableEntry(content string) (string, TableColAttributeToken) {
 	var attributeToken TableColAttributeToken
 
-	splittedContent := strings.Split(content, "|")
+	splittedContent := strings.SplitN(content, "|", 2)
 	if len(splittedContent) < 2 {
 		return t.tokenizeContent(t, content), attributeToken
 	}
-- 
2.43.0


From a519d439afcd3e15ae01da2e0a24e9f4be3db6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:52 +0000
Subject: [PATCH 19/89] fix: keep text alignment and spans of table cells
 independent of quotes and semicolons

---
 src/parser/pattern.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index eabc004..f260c7c 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -48,8 +48,8 @@ var (
 // Tables
 var (
 	tableStartRegex         = regexp.MustCompile(`^(:*)(\{\|.*)`)
-	tableRowAndColspanRegex = regexp.MustCompile(`(colspan|rowspan)="?(\d+)"?`)
-	tableTextAlignRegex     = regexp.MustCompile(`text-align:.+?;`)
+	tableRowAndColspanRegex = regexp.MustCompile(`(colspan|rowspan)\s*=\s*(?:"\s*\d+\s*"|'\s*\d+\s*'|\d+)`)
+	tableTextAlignRegex     = regexp.MustCompile(`text-align\s*:[^;"']+;?`)
 )
 
 // References
-- 
2.43.0


From e02de8d90ca7ef3122b48f90f287e674d120b7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:57 +0000
Subject: [PATCH 20/89] fix: keep text in the line of a table end

---
 src/parser/table.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/parser/table.go b/src/parser/table.go
index 9ac83bf..80b3c81 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -47,6 +47,9 @@ func (t *Tokenizer) parseTables(content string) string {
 			var newLines []string
 			newLines = append(newLines, lines[:i]...)
 			newLines = append(newLines, listPrefix+token)
+			if textBehindTable := t.getTextBehindTable(lines, newIndex); textBehindTable != "" {
+				newLines = append(newLines, textBehindTable)
+			}
 			if i+length+1 < len(lines) {
 				newLines = append(newLines, lines[i+length+1:]...)
 			}
@@ -73,6 +76,9 @@ func (t *Tokenizer) tokenizeTables(lines []string, i int) (string, int) {
 			// another table starts
 			tableToken, i = t.tokenizeTables(lines, i)
 			tableLines = append(tableLines, tableToken)
+			if textBehindTable := t.getTextBehindTable(lines, i); textBehindTable != "" {
+				tableLines = append(tableLines, textBehindTable)
+			}
 		} else if strings.HasPrefix(line, "|}") {
 			// the table ends with this line
 			tableLines = append(tableLines, lines[i])
@@ -91,6 +97,14 @@ func (t *Tokenizer) tokenizeTables(lines []string, i int) (string, int) {
 	return tokenKey, i
 }
 
+// getTextBehindTable returns the text that follows the end of a table in the line with the given index.
+func (t *Tokenizer) getTextBehindTable(lines []string, i int) string {
+	if i >= len(lines) {
+		return ""
+	}
+	return strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(lines[i]), "|}"))
+}
+
 // tokenizeTable expects content to be all lines of a table.
 func (t *Tokenizer) tokenizeTable(content string) TableToken {
 	// Ensure that each entry starts in a new row. Only lines starting with a cell can contain further cells. The space
-- 
2.43.0


From a231911fa4fda255c187675331bac0a627afeeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:29 +0000
Subject: [PATCH 21/89] fix: only consider whole image parameters as thumbnail
 parameters

---
 src/parser/image.go   | 5 +++--
 src/parser/pattern.go | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser/image.go b/src/parser/image.go
index 25926ec..76fef8f 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"fmt"
 	"path/filepath"
+	"slices"
 	"strconv"
 	"strings"
 	"wiki2book/config"
@@ -119,7 +120,7 @@ func (t *Tokenizer) parseGalleries(content string) string {
 
 			lineSegments := strings.Split(trimmedLine, "|")
 
-			if !hasNonInlineParameterRegex.MatchString(trimmedLine) {
+			if !slices.ContainsFunc(lineSegments[1:], hasNonInlineParameterRegex.MatchString) {
 				// Line has no non-inline parameter -> Add one to make it a non-inline image in further image parsing/escaping
 				// The last parameter is the caption, so the non-inline parameter is added right behind the file name
 				newLineSegments := make([]string, len(lineSegments)+1)
@@ -228,7 +229,7 @@ func (t *Tokenizer) parseImages(content string) string {
 			}
 
 			for i, option := range filteredOptions {
-				if util.HasAnyPrefix(option, imageNonInlineParameters...) {
+				if i > 0 && hasNonInlineParameterRegex.MatchString(option) {
 					tokenType = TOKEN_IMAGE
 					hasCaption = true
 				} else if strings.HasSuffix(option, "px") {
diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index f260c7c..1644461 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -42,7 +42,7 @@ var (
 var (
 	galleryStartRegex          = regexp.MustCompile(`(?i)^<gallery.*?>`)
 	imagemapStartRegex         = regexp.MustCompile(`(?i)^<imagemap.*?>`)
-	hasNonInlineParameterRegex = regexp.MustCompile("(?i)(" + strings.Join(imageNonInlineParameters, "|") + ")")
+	hasNonInlineParameterRegex = regexp.MustCompile(`(?i)^\s*(` + strings.Join(imageNonInlineParameters, "|") + `)(atur|nail)?\s*(=.*)?$`)
 )
 
 // Tables
-- 
2.43.0


From 222bc5961afcb738df86b83e7fb7489fe85ebf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 22/89] fix: keep image captions ending with px

---
 src/parser/image.go   | 2 +-
 src/parser/pattern.go | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/image.go b/src/parser/image.go
index 76fef8f..ff56d51 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -232,7 +232,7 @@ func (t *Tokenizer) parseImages(content string) string {
 				if i > 0 && hasNonInlineParameterRegex.MatchString(option) {
 					tokenType = TOKEN_IMAGE
 					hasCaption = true
-				} else if strings.HasSuffix(option, "px") {
+				} else if imageSizeParameterRegex.MatchString(option) {
 					option = strings.TrimSuffix(option, "px")
 					sizes := strings.Split(option, "x")
 
diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 1644461..6ede2a8 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -42,6 +42,7 @@ var (
 var (
 	galleryStartRegex          = regexp.MustCompile(`(?i)^<gallery.*?>`)
 	imagemapStartRegex         = regexp.MustCompile(`(?i)^<imagemap.*?>`)
+	imageSizeParameterRegex    = regexp.MustCompile(`^\s*\d*\s*(x\s*\d*\s*)*px$`)
 	hasNonInlineParameterRegex = regexp.MustCompile(`(?i)^\s*(` + strings.Join(imageNonInlineParameters, "|") + `)(atur|nail)?\s*(=.*)?$`)
 )
 
-- 
2.43.0


From a2bc5bc85368a04f7fe78dad96af3baac93d1b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 23/89] fix: don't crash on unclosed images and on images or
 imagemaps without a name

---
 src/parser/image.go | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/parser/image.go b/src/parser/image.go
index ff56d51..10a15ce 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -54,6 +54,11 @@ func (t *Tokenizer) escapeImages(content string) string {
 		filename = strings.TrimSpace(fileSegments[1])
 	}
 
+	if filename == "" {
+		// Broken image without a name
+		return ""
+	}
+
 	// Check if this media type is unwanted
 	fileExtension := strings.ToLower(strings.TrimPrefix(filepath.Ext(filename), "."))
 	if util.Contains(config.Current.IgnoredMediaTypes, fileExtension) {
@@ -179,11 +184,19 @@ func (t *Tokenizer) parseImageMaps(content string) string {
 			if line == "" {
 				// if empty -> delete this line i, the next line contains the image
 				lines = append(lines[:i], lines[i+1:]...)
+				if i >= len(lines) {
+					// Broken imagemap without any content
+					break
+				}
 				line = lines[i]
 			}
 
 			// "line" contains definitely the image of the imagemap
-			lines[i] = fmt.Sprintf("[[%s]]", t.escapeImages(line))
+			line = t.escapeImages(line)
+			if line != "" {
+				line = fmt.Sprintf("[[%s]]", line)
+			}
+			lines[i] = line
 
 			withinImageMap = true
 			continue
@@ -197,10 +210,15 @@ func (t *Tokenizer) parseImageMaps(content string) string {
 func (t *Tokenizer) parseImages(content string) string {
 	var err error
 
-	startIndex := internalLinkStartRegex.FindStringIndex(content)
+	startIndex := findNextImage(content, 0)
 	for startIndex != nil {
 		// Use the end-index of the match, since it points to the ":" of the "[[File:" match
 		endIndex := FindCorrespondingCloseToken(content, startIndex[1], "[", "]")
+		if endIndex == -1 || !strings.HasPrefix(content[endIndex:], "]]") {
+			// Image is never (correctly) closed -> broken wikitext, which is not considered to be an image
+			startIndex = findNextImage(content, startIndex[1])
+			continue
+		}
 
 		imageContent := content[startIndex[1]:endIndex]
 		imageContent = t.tokenizeContent(t, imageContent)
@@ -296,8 +314,17 @@ func (t *Tokenizer) parseImages(content string) string {
 		}
 
 		// Find next image
-		startIndex = internalLinkStartRegex.FindStringIndex(content)
+		startIndex = findNextImage(content, startIndex[0])
 	}
 
 	return content
 }
+
+// findNextImage returns the start and end index of the next "[[...:" at or behind the given index or nil.
+func findNextImage(content string, index int) []int {
+	location := internalLinkStartRegex.FindStringIndex(content[index:])
+	if location == nil {
+		return nil
+	}
+	return []int{location[0] + index, location[1] + index}
+}
-- 
2.43.0


From dad046de6355c3aa08a2ed62e61e66cdbd9caac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:45 +0000
Subject: [PATCH 24/89] fix: keep two dollar signs in texts instead of
 mistaking them for tokens

---
 src/generator/expand.go | 68 +++++++++++++++++------------------------
 1 file changed, 28 insertions(+), 40 deletions(-)

diff --git a/src/generator/expand.go b/src/generator/expand.go
index a3b0e54..b516ab7 100644
--- a/src/generator/expand.go
+++ b/src/generator/expand.go
@@ -71,7 +71,8 @@ func expand(expansionHandler ExpansionHandler, content interface{}) (string, err
 func expandString(g ExpansionHandler, content string) (string, error) {
 	content = g.expandMarker(content)
 
-	matches := tokenRegex.FindAllString(content, -1)
+	// Only complete token keys are considered, other "$$" in the content are normal text.
+	matches := tokenRegex.FindAllStringIndex(content, -1)
 
 	if len(matches) == 0 {
 		// no token in content
@@ -79,51 +80,38 @@ func expandString(g ExpansionHandler, content string) (string, error) {
 	}
 
 	// Index where pure text starts (e.g. after a token)
-	textSegmentStartIndex := -1
+	textSegmentStartIndex := 0
 	newContent := ""
 
-	for i := 0; i < len(content); i++ {
-		if i < len(content)-1 && content[i:i+2] == "$$" {
-			// We found a token start -> Expand content before token and the token itself
-
-			// 1. Expand normal text before token (if there is any text before the token)
-			if textSegmentStartIndex != -1 {
-				pureTextSegment := content[textSegmentStartIndex:i]
-				expandedPureTextSegment := g.expandSimpleString(pureTextSegment)
-				newContent += expandedPureTextSegment
-			}
-
-			// 2. Expand token and its content
-			tokenEndIndex := parser.FindCorrespondingCloseToken(content, i+2, "$$", "$$")
-			tokenKey := content[i+2 : tokenEndIndex]
-
-			tokenContent, hasTokenKey := g.getToken("$$" + tokenKey + "$$")
-			if !hasTokenKey {
-				return "", errors.Errorf("Token key %s not found in token map", tokenKey)
-			}
-			sigolo.Tracef("Found token %s -> %#v", tokenKey, tokenContent)
-
-			expandedContent, err := expand(g, tokenContent)
-			if err != nil {
-				return "", err
-			}
-
-			newContent += expandedContent
-
-			// Skip the token with its ending and continue after it. Only "+1" because the loop ads another "+1" so that the whole token ending of length 2 is skipped.
-			i = tokenEndIndex + 1
-			textSegmentStartIndex = -1
-		} else if textSegmentStartIndex == -1 {
-			// When index is unset -> set it and therefore remember the start of a pure text segment
-			textSegmentStartIndex = i
+	for _, match := range matches {
+		// 1. Expand normal text before token (if there is any text before the token)
+		if textSegmentStartIndex < match[0] {
+			newContent += g.expandSimpleString(content[textSegmentStartIndex:match[0]])
 		}
+
+		// 2. Expand token and its content
+		tokenKey := content[match[0]:match[1]]
+
+		tokenContent, hasTokenKey := g.getToken(tokenKey)
+		if !hasTokenKey {
+			return "", errors.Errorf("Token key %s not found in token map", tokenKey)
+		}
+		sigolo.Tracef("Found token %s -> %#v", tokenKey, tokenContent)
+
+		expandedContent, err := expand(g, tokenContent)
+		if err != nil {
+			return "", err
+		}
+
+		newContent += expandedContent
+
+		// Continue after the token
+		textSegmentStartIndex = match[1]
 	}
 
 	// Expand the part behind the last token (if it exists)
-	if textSegmentStartIndex != -1 {
-		pureTextSegment := content[textSegmentStartIndex:]
-		expandedPureTextSegment := g.expandSimpleString(pureTextSegment)
-		newContent += expandedPureTextSegment
+	if textSegmentStartIndex < len(content) {
+		newContent += g.expandSimpleString(content[textSegmentStartIndex:])
 	}
 
 	return newContent, nil
-- 
2.43.0


From b9b743b7004c3d11ee1983664791ae398a92a87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 25/89] fix: don't loop forever on text that looks like a
 template placeholder

---
 src/parser/template.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/template.go b/src/parser/template.go
index aa5dd2d..575237a 100644
--- a/src/parser/template.go
+++ b/src/parser/template.go
@@ -38,6 +38,7 @@ func (t *Tokenizer) evaluateTemplates(content string) (string, error) {
 	for strings.Contains(content, templatePlaceholderPrefix) {
 		sigolo.Tracef("Check content for template placeholders (%d remain)", len(placeholderToContent))
 
+		replacedPlaceholder := false
 		for key, template := range placeholderToContent {
 			placeholder := fmt.Sprintf(templatePlaceholderTemplate, key)
 			containsPlaceholder := strings.Contains(content, placeholder)
@@ -46,8 +47,14 @@ func (t *Tokenizer) evaluateTemplates(content string) (string, error) {
 			if containsPlaceholder {
 				content = strings.ReplaceAll(content, placeholder, template)
 				sigolo.Tracef("Replaced template placeholder %s in content", key)
+				replacedPlaceholder = true
 			}
 		}
+
+		if !replacedPlaceholder {
+			// The content contains text that only looks like a placeholder
+			break
+		}
 	}
 	sigolo.Debug("Finished replacing template placeholders. Template handling done.")
 
-- 
2.43.0


From c93aa230e6a315c67f4f9c05a6760959ecd02319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:07 +0000
Subject: [PATCH 26/89] fix: escape tags within nowiki

---
 src/generator/html.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/generator/html.go b/src/generator/html.go
index 32b114f..9e08502 100644
--- a/src/generator/html.go
+++ b/src/generator/html.go
@@ -394,7 +394,8 @@ func (g *HtmlGenerator) expandMath(token parser.MathToken) (string, error) {
 }
 
 func (g *HtmlGenerator) expandNowiki(token parser.NowikiToken) string {
-	return token.Content
+	// The content is no wikitext and no HTML, so any tags must be visible as normal text.
+	return strings.NewReplacer("<", "&lt;", ">", "&gt;").Replace(token.Content)
 }
 
 // write returns the output path or an error.
-- 
2.43.0


From 7396edf3da04864c160e5334a3b229ce26383eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:12 +0000
Subject: [PATCH 27/89] fix: don't interpret formulas as wikitext

---
 src/parser/tokenizer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizer.go b/src/parser/tokenizer.go
index acd4399..4ca9258 100644
--- a/src/parser/tokenizer.go
+++ b/src/parser/tokenizer.go
@@ -140,6 +140,8 @@ func tokenizeContent(t *Tokenizer, content string) string {
 		originalContent := content
 
 		content = t.parseNowiki(content)
+		// Formulas contain arbitrary characters, which must not be interpreted as wikitext
+		content = t.parseMath(content)
 
 		content = t.parseBoldAndItalic(content)
 		// References first, because headings might contain references, which belong to the references of the content
@@ -152,7 +154,6 @@ func tokenizeContent(t *Tokenizer, content string) string {
 		content = t.parseImages(content)
 
 		content = t.parseExternalLinks(content)
-		content = t.parseMath(content)
 		content = t.parseLists(content)
 		content = t.parseTables(content)
 		content = t.parseParagraphs(content)
-- 
2.43.0


From 8f147622707024b45aa26a9b2719183195df9f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:29 +0000
Subject: [PATCH 28/89] fix: keep arguments of trailing templates and templates
 with similar names

---
 src/parser/cleaner.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index 1feae80..044221c 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -155,13 +155,14 @@ func (t *Tokenizer) handleUnwantedAndTrailingTemplates(content string) string {
 			templateName := strings.ToLower(templateNameMatches[1])
 			templateName = strings.TrimSpace(templateName)
 
-			if util.HasAnyPrefix(templateName, ignoreTemplates...) || util.HasAnyPrefix(templateName, trailingTemplates...) {
+			isTrailingTemplate := util.Contains(trailingTemplates, templateName)
+			if util.HasAnyPrefix(templateName, ignoreTemplates...) || isTrailingTemplate {
 				// Replace the template with an empty string, since it should be ignored.
 				content = strings.Replace(content, templateText, "", 1)
 
 				// Collect templates that should be moved to the bottom of the article
-				if util.Contains(trailingTemplates, templateName) {
-					foundTrailingTemplates = append(foundTrailingTemplates, templateName)
+				if isTrailingTemplate {
+					foundTrailingTemplates = append(foundTrailingTemplates, templateText)
 				}
 
 				// Because the template was removed, we have to start from the original location again in the next
@@ -173,7 +174,7 @@ func (t *Tokenizer) handleUnwantedAndTrailingTemplates(content string) string {
 
 	// Re-add trailing templates to the bottom of the article
 	for _, foundTrailingTemplate := range foundTrailingTemplates {
-		content += "\n{{" + foundTrailingTemplate + "}}"
+		content += "\n" + foundTrailingTemplate
 	}
 
 	return content
-- 
2.43.0


From 17782327375b24d28d93decf088e4f34c51369f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 29/89] fix: keep the text of links with unsupported protocols

---
 src/generator/expand.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/generator/expand.go b/src/generator/expand.go
index b516ab7..4391bed 100644
--- a/src/generator/expand.go
+++ b/src/generator/expand.go
@@ -44,6 +44,8 @@ func expandToken(expansionHandler ExpansionHandler, token parser.Token) (string,
 		html, err = expansionHandler.expandRefDefinition(t)
 	case parser.RefUsageToken:
 		html = expansionHandler.expandRefUsage(t)
+	case parser.StringToken:
+		html, err = expand(expansionHandler, t.String)
 	case parser.NowikiToken:
 		html = expansionHandler.expandNowiki(t)
 	}
-- 
2.43.0


From 3c1d755544351016242f8b25a8566f11145a1040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:25 +0000
Subject: [PATCH 30/89] fix: handle reference tags which directly follow each
 other within a reference list

---
 src/parser/reference.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/reference.go b/src/parser/reference.go
index 8abb647..6ee3c2d 100644
--- a/src/parser/reference.go
+++ b/src/parser/reference.go
@@ -86,7 +86,10 @@ func (t *Tokenizer) parseReferences(content string) string {
 			refNumberCounterForCurrentGroup := refNumberCounter[currentPlaceholderGroup]
 			refNumberToContentForCurrentGroup := refNumberToContent[currentPlaceholderGroup]
 
+			// Continue right behind the text before this placeholder, even when there were no references to list.
+			newIndex := len(strings.TrimRight(content[0:i], "\n")) - 1
 			content = t.parseReferenceEndPlaceholder(content, i, startEndIndex, refNumberCounterForCurrentGroup, refNumberToContentForCurrentGroup)
+			i = newIndex
 			cursorWithinReferencePlaceholder = false
 			currentPlaceholderGroup = ""
 		} else if referencePlaceholderStartRegex.MatchString(content[i : startEndIndex+1]) {
@@ -94,6 +97,7 @@ func (t *Tokenizer) parseReferences(content string) string {
 			// TODO indices correct?
 			currentPlaceholderGroup = t.getGroupOrDefault(content[i:startEndIndex])
 			content = content[0:i] + content[startEndIndex+1:] // Remove tag from content
+			i--                                                // The next tag might directly follow
 			cursorWithinReferencePlaceholder = true
 		} else {
 			// Tag like "<ref name=..." or "<ref>..." found
@@ -128,6 +132,10 @@ func (t *Tokenizer) parseReferences(content string) string {
 			}
 
 			refNumberCounter[groupName] = refNumberCounterForCurrentGroup
+
+			if cursorWithinReferencePlaceholder && (!isReferenceUsage || nameAttributeValue != "") {
+				i-- // The tag has been removed without replacement and the next one might directly follow
+			}
 		}
 	}
 
-- 
2.43.0


From bbd245a6960329778a3836c4a7fa5c77173056cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:15 +0000
Subject: [PATCH 31/89] fix: don't remove lines starting and ending with bold
 text as empty sections

---
 src/parser/cleaner.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index 044221c..c9df6d8 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -304,7 +304,8 @@ func (t *Tokenizer) walkSection(i int, lines []string, previousHeadingDepth int)
 func (t *Tokenizer) headingDepth(line string) int {
 	if !strings.HasPrefix(line, "=") || !strings.HasSuffix(line, "=") {
 		// No real heading. But maybe a semi-heading (line with only bold text)?
-		if strings.HasPrefix(line, "'''") && strings.HasSuffix(line, "'''") {
+		// Several bold parts with other text between them are normal text.
+		if strings.HasPrefix(line, "'''") && strings.HasSuffix(line, "'''") && strings.Count(line, "'''") <= 2 {
 			return semiHeadingDepth
 		}
 		// Not even semi-heading -> No heading at all
-- 
2.43.0


From f0aab3620ff46736bceaddb363325a5ca98f6fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 32/89] fix: handle images used by several articles only once
 at a time

---
 src/wikipedia/wikipedia.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index 5737d70..f4818c0 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -10,6 +10,7 @@ import (
 	"path/filepath"
 	"regexp"
 	"strings"
+	"sync"
 	"wiki2book/cache"
 	"wiki2book/config"
 	ownHttp "wiki2book/http"
@@ -60,6 +61,8 @@ type DefaultWikipediaService struct {
 	wikipediaMathRestApi       string
 	imageProcessingService     image.ImageProcessingService
 	httpService                ownHttp.HttpService
+	// Contains one mutex per image, so that an image used by several articles is only handled by one of them at a time.
+	imageMutexes sync.Map
 }
 
 func NewWikipediaService(wikipediaInstance string, wikipediaHost string, wikipediaImageInstances []string, wikipediaImageHost string, wikipediaMathRestApi string, imageProcessingService image.ImageProcessingService, httpClient ownHttp.HttpService) *DefaultWikipediaService {
@@ -119,7 +122,16 @@ func (w *DefaultWikipediaService) DownloadImages(images []string) error {
 	return nil
 }
 
+// lockImage waits until no one else is handling the image with the given name and returns the function to unlock it.
+func (w *DefaultWikipediaService) lockImage(image string) func() {
+	mutex, _ := w.imageMutexes.LoadOrStore(strings.ReplaceAll(image, " ", "_"), &sync.Mutex{})
+	mutex.(*sync.Mutex).Lock()
+	return mutex.(*sync.Mutex).Unlock
+}
+
 func (w *DefaultWikipediaService) downloadImageUsingAllSources(image string) error {
+	defer w.lockImage(image)()
+
 	var downloadErr error
 
 	for i, articleHost := range w.wikipediaImageArticleHosts {
-- 
2.43.0


From 4cb8a8d268d7f5a7aa705882a663fe7420ce5ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:53 +0000
Subject: [PATCH 33/89] fix: convert each math SVG only once

---
 src/wikipedia/wikipedia.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index f4818c0..08eabc3 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -284,6 +284,8 @@ func (w *DefaultWikipediaService) RenderMath(mathString string) (string, string,
 	sigolo.Debugf("Render math %s", util.TruncString(mathString))
 	sigolo.Tracef("  Complete math text: %s", mathString)
 
+	defer w.lockImage(mathString)()
+
 	mathApiUrl := w.wikipediaMathRestApi
 
 	mathSvgFilename, err := w.getMathResource(mathString)
@@ -292,7 +294,7 @@ func (w *DefaultWikipediaService) RenderMath(mathString string) (string, string,
 	}
 
 	imageSvgUrl := mathApiUrl + "/render/svg/" + mathSvgFilename
-	cachedSvgFile, _, err := w.httpService.DownloadAndCache(imageSvgUrl, cache.ImageCacheDirName, mathSvgFilename+util.FileEndingSvg)
+	cachedSvgFile, freshlyDownloaded, err := w.httpService.DownloadAndCache(imageSvgUrl, cache.ImageCacheDirName, mathSvgFilename+util.FileEndingSvg)
 	if err != nil {
 		return "", "", err
 	}
@@ -308,9 +310,11 @@ func (w *DefaultWikipediaService) RenderMath(mathString string) (string, string,
 		return cachedSvgFile, cachedPngFile, nil
 	} else if config.Current.MathConverter == config.MathConverterTemplate {
 		cachedPngFile := cache.GetFilePathInCache(cache.ImageCacheDirName, mathSvgFilename+util.FileEndingPng)
-		err = w.imageProcessingService.ConvertToPng(cachedSvgFile, cachedPngFile, config.Current.CommandTemplateMathSvgToPng)
-		if err != nil {
-			return "", "", err
+		if freshlyDownloaded || !util.PathExists(cachedPngFile) {
+			err = w.imageProcessingService.ConvertToPng(cachedSvgFile, cachedPngFile, config.Current.CommandTemplateMathSvgToPng)
+			if err != nil {
+				return "", "", err
+			}
 		}
 		return cachedSvgFile, cachedPngFile, nil
 	}
-- 
2.43.0


From 02ad609ca6405923e689ab98fac875a9d550ece2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:17 +0000
Subject: [PATCH 34/89] fix: convert images again when they have been
 downloaded again

---
 src/wikipedia/wikipedia.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index 08eabc3..ee57695 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -177,7 +177,7 @@ func (w *DefaultWikipediaService) postProcessImage(outputFilepath string, freshl
 	if commandTemplate != "" {
 		outputPngFilepath := util.GetPngPathForFile(outputFilepath)
 		pngAlreadyExists := util.PathExists(outputPngFilepath)
-		if !pngAlreadyExists {
+		if freshlyDownloaded || !pngAlreadyExists {
 			err := w.imageProcessingService.ConvertToPng(outputFilepath, outputPngFilepath, commandTemplate)
 			if err != nil {
 				return err
-- 
2.43.0


From 812fc753789311d8d070cd514384f8cd943b1d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:48 +0000
Subject: [PATCH 35/89] fix: do not leave partially converted images in the
 cache

---
 src/image/image.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/image/image.go b/src/image/image.go
index eaaf823..c5048ee 100644
--- a/src/image/image.go
+++ b/src/image/image.go
@@ -1,7 +1,9 @@
 package image
 
 import (
+	"path/filepath"
 	"strings"
+	"wiki2book/cache"
 	"wiki2book/config"
 	"wiki2book/util"
 
@@ -33,8 +35,16 @@ func (s *ImageProcessingServiceImpl) ResizeAndCompressImage(imageFilepath string
 func (s *ImageProcessingServiceImpl) ConvertToPng(inputFile string, pngFile string, commandTemplate string) error {
 	sigolo.Tracef("Convert '%s' to PNG '%s'", inputFile, pngFile)
 
-	replacer := strings.NewReplacer(config.InputPlaceholder, inputFile, config.OutputPlaceholder, pngFile)
+	// Write to a temporary file first. This prevents broken files in the cache in case the conversion fails or the
+	// application exits during the conversion.
+	tempPngFile := filepath.Join(cache.GetTempPath(), filepath.Base(pngFile))
+	replacer := strings.NewReplacer(config.InputPlaceholder, inputFile, config.OutputPlaceholder, tempPngFile)
 
 	err := util.ExecuteCommandTemplate(commandTemplate, replacer, ".")
-	return errors.Wrapf(err, "Converting image '%s' to PNG failed", inputFile)
+	if err != nil {
+		return errors.Wrapf(err, "Converting image '%s' to PNG failed", inputFile)
+	}
+
+	err = util.CurrentFilesystem.Rename(tempPngFile, pngFile)
+	return errors.Wrapf(err, "Moving converted image '%s' to '%s' failed", tempPngFile, pngFile)
 }
-- 
2.43.0


From d5c726690281ecdc32a74bbf3499c46511ec505d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:53 +0000
Subject: [PATCH 36/89] fix: do not keep images in the cache whose processing
 failed

---
 src/wikipedia/wikipedia.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index ee57695..3e85a6b 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -195,6 +195,11 @@ func (w *DefaultWikipediaService) postProcessImage(outputFilepath string, freshl
 	if freshlyDownloaded && config.Current.CommandTemplateImageProcessing != "" && fileFormatCanBeScaled {
 		err := w.imageProcessingService.ResizeAndCompressImage(outputFilepath, config.Current.CommandTemplateImageProcessing)
 		if err != nil {
+			// The file is not or only partially processed and must not be used by later runs.
+			removeErr := util.CurrentFilesystem.Remove(outputFilepath)
+			if removeErr != nil {
+				sigolo.Warnf("Unable to remove image '%s', which could not be processed: %s", outputFilepath, removeErr.Error())
+			}
 			return err
 		}
 	}
-- 
2.43.0


From 580c859e2b5d2100d013ac8f59820ae3eb8bbc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 37/89] fix: do not keep answers in the cache that are no JSON

---
 src/wikipedia/wikipedia.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index 3e85a6b..60a386e 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -96,6 +96,7 @@ func (w *DefaultWikipediaService) DownloadArticle(host string, title string) (*W
 	wikiArticleDto := &WikiArticleDto{}
 	err = json.Unmarshal(cachedResponseBytes, wikiArticleDto)
 	if err != nil {
+		removeUnusableFile(cachedFilePath)
 		return nil, errors.Wrap(err, fmt.Sprintf("Error parsing JSON from article %s.%s/%s", w.wikipediaInstance, w.wikipediaHost, title))
 	}
 
@@ -106,6 +107,14 @@ func (w *DefaultWikipediaService) DownloadArticle(host string, title string) (*W
 	return wikiArticleDto, nil
 }
 
+// removeUnusableFile removes the given file from the cache, so that it's not used by later runs.
+func removeUnusableFile(cachedFilePath string) {
+	err := util.CurrentFilesystem.Remove(cachedFilePath)
+	if err != nil {
+		sigolo.Warnf("Unable to remove unusable file '%s' from cache: %s", cachedFilePath, err.Error())
+	}
+}
+
 // DownloadImages tries to download the given images from a couple of sources (wikipedia/wikimedia instances). The
 // downloaded images will be in the output folder. Some images might be redirects, so the redirect will be resolved,
 // that's why the article cache folder is needed as well.
@@ -196,10 +205,7 @@ func (w *DefaultWikipediaService) postProcessImage(outputFilepath string, freshl
 		err := w.imageProcessingService.ResizeAndCompressImage(outputFilepath, config.Current.CommandTemplateImageProcessing)
 		if err != nil {
 			// The file is not or only partially processed and must not be used by later runs.
-			removeErr := util.CurrentFilesystem.Remove(outputFilepath)
-			if removeErr != nil {
-				sigolo.Warnf("Unable to remove image '%s', which could not be processed: %s", outputFilepath, removeErr.Error())
-			}
+			removeUnusableFile(outputFilepath)
 			return err
 		}
 	}
@@ -279,6 +285,7 @@ func (w *DefaultWikipediaService) EvaluateTemplate(template string, cacheFile st
 	evaluatedTemplate := &WikiExpandedTemplateDto{}
 	err = json.Unmarshal(evaluatedTemplateString, evaluatedTemplate)
 	if err != nil {
+		removeUnusableFile(cacheFilePath)
 		return "", errors.Wrapf(err, "Unable to unmarshal template string:\n%s", evaluatedTemplateString)
 	}
 
-- 
2.43.0


From 5c93046f022b1b958801ef1561ee3e6daf61ed47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:15 +0000
Subject: [PATCH 38/89] fix: do not keep unusable renderings of formulas in the
 cache

---
 src/generator/html.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/generator/html.go b/src/generator/html.go
index 9e08502..9993f8e 100644
--- a/src/generator/html.go
+++ b/src/generator/html.go
@@ -379,6 +379,11 @@ func (g *HtmlGenerator) expandMath(token parser.MathToken) (string, error) {
 
 	svg, err := image.ReadSimpleAvgAttributes(svgAbsolutePath)
 	if err != nil {
+		// The file is not usable, so it must not stay in the cache where it would be used by later runs.
+		removeErr := util.CurrentFilesystem.Remove(svgAbsolutePath)
+		if removeErr != nil {
+			sigolo.Warnf("Unable to remove unusable file '%s' from cache: %s", svgAbsolutePath, removeErr.Error())
+		}
 		return "", err
 	}
 
-- 
2.43.0


From 15d613d331453b0948cdde1047c6bd346de7cf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:20 +0000
Subject: [PATCH 39/89] fix: crash on answers for images without title

---
 src/wikipedia/wikipedia.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index 60a386e..271a1d2 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -226,6 +226,11 @@ func (w *DefaultWikipediaService) downloadImage(imageArticleHost string, imageNa
 		return "", true, err
 	}
 
+	if !strings.Contains(imageArticle.Parse.Title, ":") {
+		removeUnusableFile(cache.GetFilePathInCache(cache.ArticleCacheDirName, strings.ReplaceAll(imageName, " ", "_")+".json"))
+		return "", true, errors.Errorf("Unexpected title '%s' of article for image '%s' from '%s'", imageArticle.Parse.Title, imageName, imageArticleHost)
+	}
+
 	// Replace spaces with underscore because wikimedia doesn't know spaces in file names:
 
 	originalImageNameWithPrefix := imageArticle.Parse.OriginalTitle
-- 
2.43.0


From e22ed13891cd061eba4bc745c1dae14c592a5a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:15 +0000
Subject: [PATCH 40/89] fix: SVGs with absolute sizes have been changed and
 some with relative ones have not

---
 src/image/svg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/image/svg.go b/src/image/svg.go
index 0ce51e6..0f8413e 100644
--- a/src/image/svg.go
+++ b/src/image/svg.go
@@ -56,7 +56,7 @@ func MakeSvgSizeAbsolute(filename string) error {
 	}
 	sigolo.Tracef("Found SVG attributes: %#v", attributes)
 
-	if !strings.HasSuffix(attributes.Width, "%") && strings.HasSuffix(attributes.Height, "%") {
+	if !strings.HasSuffix(attributes.Width, "%") && !strings.HasSuffix(attributes.Height, "%") {
 		// Width and height are already absolute values, nothing to do here.
 		sigolo.Debugf("SVG file '%s' does not relative width and height attributes. Found width=%s and height=%s. File stays unchanged.", filename, attributes.Width, attributes.Height)
 		return nil
-- 
2.43.0


From d0d4b79489bea91672d7603037a373b693d10c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:19 +0000
Subject: [PATCH 41/89] fix: view boxes with several blanks or commas with
 blanks broke SVG sizes

---
 src/image/svg.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/image/svg.go b/src/image/svg.go
index 0f8413e..aa95a49 100644
--- a/src/image/svg.go
+++ b/src/image/svg.go
@@ -94,10 +94,11 @@ func replaceRelativeSizeByViewboxSize(fileString string, filename string, oldAtt
 	var viewboxAttributeValues []string
 	viewboxAttributeString := viewboxAttributeContentSlice[1]
 	sigolo.Tracef("Found viewBox=%s", viewboxAttributeString)
-	if strings.Contains(viewboxAttributeString, ",") {
-		viewboxAttributeValues = strings.Split(viewboxAttributeString, ",")
-	} else if strings.Contains(viewboxAttributeString, " ") {
-		viewboxAttributeValues = strings.Split(viewboxAttributeString, " ")
+	if strings.ContainsAny(viewboxAttributeString, ", \t\r\n") {
+		// The values are separated by commas and/or any number of whitespaces.
+		viewboxAttributeValues = strings.FieldsFunc(viewboxAttributeString, func(r rune) bool {
+			return strings.ContainsRune(", \t\r\n", r)
+		})
 	} else {
 		// No supported separator found
 		sigolo.Debugf("Unsupported separator for 'viewBox' attribute values in file '%s', file stays unchanged. Expected comma or space in attribute 'viewbox=\"%s\"'", filename, viewboxAttributeString)
-- 
2.43.0


From de6ab16b102709bd5515d7eeb57e48cddb82d60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:25 +0000
Subject: [PATCH 42/89] fix: only use and change the attributes of the root
 element when fixing SVG sizes

---
 src/image/svg.go           | 38 +++++++++++++++++++++++++++++++++-----
 src/wikipedia/wikipedia.go |  2 +-
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/image/svg.go b/src/image/svg.go
index aa95a49..7c799f5 100644
--- a/src/image/svg.go
+++ b/src/image/svg.go
@@ -21,6 +21,8 @@ type SimpleSvgAttributes struct {
 }
 
 var (
+	// Matches everything up to the root element in group 1 and the opening tag of the root element in group 2.
+	svgRootTagRegex        = regexp.MustCompile(`(?s)^((?:[^<]|<\?.*?\?>|<!--.*?-->|<!DOCTYPE[^\[>]*(?:\[.*?\]\s*)?>)*)(<(?:[\w-]+:)?svg(?:\s(?:[^>"']|"[^"]*"|'[^']*')*)?>)`)
 	xmlNamespaceValueRegex = regexp.MustCompile(`&ns.*?;`) // Attributes like  xmlns="&ns_svg;"  cause error during Unmarshalling.
 )
 
@@ -76,15 +78,23 @@ func MakeSvgSizeAbsolute(filename string) error {
 }
 
 func replaceRelativeSizeByViewboxSize(fileString string, filename string, oldAttributes *SimpleSvgAttributes) string {
+	// Only consider the root element, other elements and comments might have such attributes as well.
+	rootTagMatch := svgRootTagRegex.FindStringSubmatchIndex(fileString)
+	if rootTagMatch == nil {
+		sigolo.Debugf("Unable to find root element in SVG file '%s'. File stays unchanged.", filename)
+		return fileString
+	}
+	rootTag := fileString[rootTagMatch[4]:rootTagMatch[5]]
+
 	// Find index of "viewbox" attribute
-	viewboxIndex := strings.Index(fileString, "viewBox=\"")
+	viewboxIndex := findAttribute(rootTag, "viewBox")
 	if viewboxIndex == -1 {
 		// No "viewbox" attribute specified, so we can't change the width/height.
 		sigolo.Debugf("SVG file '%s' does not contain a 'viewBox' attribute. File stays unchanged.", filename)
 		return fileString
 	}
 
-	viewboxAttributeContentSlice := strings.SplitN(fileString[viewboxIndex:], "\"", 3)
+	viewboxAttributeContentSlice := strings.SplitN(rootTag[viewboxIndex:], "\"", 3)
 	if len(viewboxAttributeContentSlice) == 1 {
 		// SVG file probably broken, at least we're not able to find a correct value for the viewbox attribute.
 		sigolo.Debugf("Unable to find 'viewBox' attribute values in file '%s'. File stays unchanged.", filename)
@@ -112,9 +122,27 @@ func replaceRelativeSizeByViewboxSize(fileString string, filename string, oldAtt
 	}
 
 	sigolo.Tracef("Replace width=%s -> width=%s and height=%s -> height=%s", oldAttributes.Width, viewboxAttributeValues[2], oldAttributes.Height, viewboxAttributeValues[3])
-	fileString = strings.Replace(fileString, "width=\""+oldAttributes.Width+"\"", "width=\""+viewboxAttributeValues[2]+"pt\"", 1)
-	fileString = strings.Replace(fileString, "height=\""+oldAttributes.Height+"\"", "height=\""+viewboxAttributeValues[3]+"pt\"", 1)
-	return fileString
+	rootTag = replaceAttribute(rootTag, "width", oldAttributes.Width, viewboxAttributeValues[2]+"pt")
+	rootTag = replaceAttribute(rootTag, "height", oldAttributes.Height, viewboxAttributeValues[3]+"pt")
+	return fileString[:rootTagMatch[4]] + rootTag + fileString[rootTagMatch[5]:]
+}
+
+// findAttribute returns the index of the attribute with the given name within the given tag or -1.
+func findAttribute(tag string, name string) int {
+	match := regexp.MustCompile(`\s` + name + `="`).FindStringIndex(tag)
+	if match == nil {
+		return -1
+	}
+	return match[0] + 1
+}
+
+// replaceAttribute sets the attribute with the given name to the new value in case it has the given old value.
+func replaceAttribute(tag string, name string, oldValue string, newValue string) string {
+	index := findAttribute(tag, name)
+	if index == -1 {
+		return tag
+	}
+	return tag[:index] + strings.Replace(tag[index:], name+"=\""+oldValue+"\"", name+"=\""+newValue+"\"", 1)
 }
 
 func parseSimpleSvgAttributes(fileContent []byte, filename string) (*SimpleSvgAttributes, error) {
diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index 271a1d2..1fb1c5c 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -263,7 +263,7 @@ func (w *DefaultWikipediaService) downloadImage(imageArticleHost string, imageNa
 		return "", freshlyDownloaded, err
 	}
 
-	if freshlyDownloaded && config.Current.SvgSizeToViewbox && filepath.Ext(cachedFilePath) == util.FileEndingSvg {
+	if freshlyDownloaded && config.Current.SvgSizeToViewbox && filepath.Ext(strings.ToLower(cachedFilePath)) == util.FileEndingSvg {
 		err = image.MakeSvgSizeAbsolute(cachedFilePath)
 		if err != nil {
 			sigolo.Errorf("Unable to make size of SVG '%s' absolute. This error will be ignored, since false errors exist for the XML parsing of SVGs. Error: %+v", cachedFilePath, err)
-- 
2.43.0


From d74274b9e7f8222abaeee01e77bba51d57e69781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:45 +0000
Subject: [PATCH 43/89] fix: order and multiplicity of list options have been
 ignored when merging configurations

---
 src/config/config.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/config/config.go b/src/config/config.go
index fe9172c..4947a62 100644
--- a/src/config/config.go
+++ b/src/config/config.go
@@ -6,6 +6,7 @@ import (
 	"os"
 	"path/filepath"
 	"runtime"
+	"slices"
 	"strings"
 	"wiki2book/util"
 
@@ -567,25 +568,25 @@ func MergeIntoCurrentConfig(c *Configuration) {
 		sigolo.Tracef("Override PandocDataDir with %s", absolutePath)
 		Current.PandocDataDir = absolutePath
 	}
-	if !util.EqualsInAnyOrder(c.FontFiles, defaultConfig.FontFiles) {
+	if !slices.Equal(c.FontFiles, defaultConfig.FontFiles) {
 		absolutePaths, err := util.ToAbsolutePaths(c.FontFiles...)
 		sigolo.FatalCheck(err)
 		sigolo.Tracef("Override FontFiles with %v", c.SvgSizeToViewbox)
 		Current.FontFiles = absolutePaths
 	}
-	if !util.EqualsInAnyOrder(c.IgnoredTemplates, defaultConfig.IgnoredTemplates) {
+	if !slices.Equal(c.IgnoredTemplates, defaultConfig.IgnoredTemplates) {
 		sigolo.Tracef("Override IgnoredTemplates with %v", c.IgnoredTemplates)
 		Current.IgnoredTemplates = c.IgnoredTemplates
 	}
-	if !util.EqualsInAnyOrder(c.TrailingTemplates, defaultConfig.TrailingTemplates) {
+	if !slices.Equal(c.TrailingTemplates, defaultConfig.TrailingTemplates) {
 		sigolo.Tracef("Override TrailingTemplates with %v", c.TrailingTemplates)
 		Current.TrailingTemplates = c.TrailingTemplates
 	}
-	if !util.EqualsInAnyOrder(c.IgnoredImageParams, defaultConfig.IgnoredImageParams) {
+	if !slices.Equal(c.IgnoredImageParams, defaultConfig.IgnoredImageParams) {
 		sigolo.Tracef("Override IgnoredImageParams with %v", c.IgnoredImageParams)
 		Current.IgnoredImageParams = c.IgnoredImageParams
 	}
-	if !util.EqualsInAnyOrder(c.IgnoredMediaTypes, defaultConfig.IgnoredMediaTypes) {
+	if !slices.Equal(c.IgnoredMediaTypes, defaultConfig.IgnoredMediaTypes) {
 		sigolo.Tracef("Override IgnoredMediaTypes with %v", c.IgnoredMediaTypes)
 		Current.IgnoredMediaTypes = c.IgnoredMediaTypes
 	}
@@ -605,19 +606,19 @@ func MergeIntoCurrentConfig(c *Configuration) {
 		sigolo.Tracef("Override WikipediaMathRestApi with %s", c.WikipediaMathRestApi)
 		Current.WikipediaMathRestApi = c.WikipediaMathRestApi
 	}
-	if !util.EqualsInAnyOrder(c.WikipediaImageArticleHosts, defaultConfig.WikipediaImageArticleHosts) {
+	if !slices.Equal(c.WikipediaImageArticleHosts, defaultConfig.WikipediaImageArticleHosts) {
 		sigolo.Tracef("Override WikipediaImageArticleHosts with %v", c.WikipediaImageArticleHosts)
 		Current.WikipediaImageArticleHosts = c.WikipediaImageArticleHosts
 	}
-	if !util.EqualsInAnyOrder(c.FilePrefixes, defaultConfig.FilePrefixes) {
+	if !slices.Equal(c.FilePrefixes, defaultConfig.FilePrefixes) {
 		sigolo.Tracef("Override FilePrefixes with %v", c.FilePrefixes)
 		Current.FilePrefixes = c.FilePrefixes
 	}
-	if !util.EqualsInAnyOrder(c.AllowedLinkPrefixes, defaultConfig.AllowedLinkPrefixes) {
+	if !slices.Equal(c.AllowedLinkPrefixes, defaultConfig.AllowedLinkPrefixes) {
 		sigolo.Tracef("Override AllowedLinkPrefixes with %v", c.AllowedLinkPrefixes)
 		Current.AllowedLinkPrefixes = c.AllowedLinkPrefixes
 	}
-	if !util.EqualsInAnyOrder(c.CategoryPrefixes, defaultConfig.CategoryPrefixes) {
+	if !slices.Equal(c.CategoryPrefixes, defaultConfig.CategoryPrefixes) {
 		sigolo.Tracef("Override CategoryPrefixes with %v", c.CategoryPrefixes)
 		Current.CategoryPrefixes = c.CategoryPrefixes
 	}
-- 
2.43.0


From 9191066cfdf26035dede726a36761fdd18ea8cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:51 +0000
Subject: [PATCH 44/89] fix: absolute font paths have been changed in config
 files

---
 src/config/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config/config.go b/src/config/config.go
index 4947a62..673ae2c 100644
--- a/src/config/config.go
+++ b/src/config/config.go
@@ -663,7 +663,7 @@ func (c *Configuration) makePathsAbsolute(file string) {
 	sigolo.FatalCheck(err)
 
 	for i, f := range c.FontFiles {
-		absoluteFile := filepath.Join(absoluteConfigDir, f)
+		absoluteFile, err := util.ToAbsolutePathWithBasedir(absoluteConfigDir, f)
 		sigolo.FatalCheck(err)
 		c.FontFiles[i] = absoluteFile
 	}
-- 
2.43.0


From 7e49cf5a16167b4aa6ddb89d2e69bb16e7939991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:36 +0000
Subject: [PATCH 45/89] fix: sub-lists have been missing in the statistics

---
 src/generator/stats.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/generator/stats.go b/src/generator/stats.go
index 4668261..f083af8 100644
--- a/src/generator/stats.go
+++ b/src/generator/stats.go
@@ -229,7 +229,18 @@ func (g *StatsGenerator) expandListItems(items []parser.ListItemToken) (string,
 }
 
 func (g *StatsGenerator) expandListItem(token parser.ListItemToken) (string, error) {
-	return expand(g, token.Content)
+	result, err := expand(g, token.Content)
+	if err != nil {
+		return "", err
+	}
+	for _, subListToken := range token.SubLists {
+		expandedSubList, err := expand(g, subListToken)
+		if err != nil {
+			return "", err
+		}
+		result += expandedSubList
+	}
+	return result, nil
 }
 
 func (g *StatsGenerator) expandRefDefinition(token parser.RefDefinitionToken) (string, error) {
-- 
2.43.0


From 69e9829cd81029bdf504d8242ca5fcb367f575b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:41 +0000
Subject: [PATCH 46/89] fix: literal text has been missing in the statistics

---
 src/generator/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/stats.go b/src/generator/stats.go
index f083af8..439f3e0 100644
--- a/src/generator/stats.go
+++ b/src/generator/stats.go
@@ -259,7 +259,7 @@ func (g *StatsGenerator) expandMath(token parser.MathToken) (string, error) {
 }
 
 func (g *StatsGenerator) expandNowiki(token parser.NowikiToken) string {
-	return ""
+	return g.expandSimpleString(token.Content)
 }
 
 func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
-- 
2.43.0


From ee7d572abac1777feb4ed7e1bcd4a8656bdc8e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:46 +0000
Subject: [PATCH 47/89] fix: random order of articles and equally often linked
 articles in the statistics

---
 src/generator/stats.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/generator/stats.go b/src/generator/stats.go
index 439f3e0..3e117c9 100644
--- a/src/generator/stats.go
+++ b/src/generator/stats.go
@@ -273,6 +273,7 @@ func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
 		Top10UncoveredInternalLinks: map[string]int{},
 	}
 	articles := map[string]*articleStats{}
+	var articleNames []string // In the order of the given files
 
 	for _, statFile := range statFiles {
 		var fileContent []byte
@@ -291,6 +292,7 @@ func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
 		}
 
 		articles[stats.ArticleName] = stats
+		articleNames = append(articleNames, stats.ArticleName)
 		combinedStats.NumberOfCharacters += stats.NumberOfCharacters
 		combinedStats.NumberOfWords += stats.NumberOfWords
 		combinedStats.NumberOfInternalLinks += stats.NumberOfInternalLinks
@@ -315,7 +317,10 @@ func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
 	}
 
 	slices.SortFunc(uncoveredArticles, func(a, b string) int {
-		return cmp.Compare(combinedStats.UncoveredInternalLinks[b], combinedStats.UncoveredInternalLinks[a])
+		return cmp.Or(
+			cmp.Compare(combinedStats.UncoveredInternalLinks[b], combinedStats.UncoveredInternalLinks[a]),
+			cmp.Compare(a, b), // Otherwise the order of equally often linked articles would be random
+		)
 	})
 	for i, uncoveredArticle := range uncoveredArticles {
 		if i >= 10 {
@@ -331,7 +336,7 @@ func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
 	if config.Current.OutputType == config.OutputTypeStatsJson {
 		outputConent, err = generateJsonStatsContent(combinedStats)
 	} else if config.Current.OutputType == config.OutputTypeStatsTxt {
-		outputConent, err = generateTxtStatsContent(articles, combinedStats)
+		outputConent, err = generateTxtStatsContent(articleNames, combinedStats)
 	} else {
 		return errors.Errorf("Invalid output type '%s' for stats", config.Current.OutputType)
 	}
@@ -362,7 +367,7 @@ func generateJsonStatsContent(combinedStats *articleStats) ([]byte, error) {
 	return outputConent, nil
 }
 
-func generateTxtStatsContent(articles map[string]*articleStats, combinedStats *articleStats) ([]byte, error) {
+func generateTxtStatsContent(articleNames []string, combinedStats *articleStats) ([]byte, error) {
 	result := "Statistics generated with wiki2book:\n\n"
 
 	result += "General:\n"
@@ -372,8 +377,8 @@ func generateTxtStatsContent(articles map[string]*articleStats, combinedStats *a
 
 	// Article names
 	result += "Article:\n"
-	for _, article := range articles {
-		result += "  " + article.ArticleName + "\n"
+	for _, articleName := range articleNames {
+		result += "  " + articleName + "\n"
 	}
 	result += "\n"
 
@@ -389,7 +394,10 @@ func generateTxtStatsContent(articles map[string]*articleStats, combinedStats *a
 		sortedUncoveredLinks = append(sortedUncoveredLinks, uncoveredLinkEntry{k, v})
 	}
 	sort.Slice(sortedUncoveredLinks, func(i, j int) bool {
-		return sortedUncoveredLinks[i].occurrences > sortedUncoveredLinks[j].occurrences
+		if sortedUncoveredLinks[i].occurrences != sortedUncoveredLinks[j].occurrences {
+			return sortedUncoveredLinks[i].occurrences > sortedUncoveredLinks[j].occurrences
+		}
+		return sortedUncoveredLinks[i].articleName < sortedUncoveredLinks[j].articleName
 	})
 
 	for i := 0; i < int(math.Min(float64(len(sortedUncoveredLinks)), 20)); i++ {
-- 
2.43.0


From 0ad396e99d601289ba06321ee5fa2f68023a5e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 48/89] fix: internal driver fails without cover image or style
 file

---
 src/generator/epub.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/generator/epub.go b/src/generator/epub.go
index 36fae3a..f2e3ea6 100644
--- a/src/generator/epub.go
+++ b/src/generator/epub.go
@@ -85,14 +85,17 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 	epubObj.SetLang(metadata.Language)
 	epubObj.SetTitle(metadata.Title)
 
-	internalCoverImagePath, err := epubObj.AddImage(config.Current.CoverImage, "cover.png")
-	if err != nil {
-		return errors.Wrap(err, fmt.Sprintf("Error adding cover image '%s' to EPUB object", config.Current.CoverImage))
-	}
+	if config.Current.CoverImage != "" {
+		var internalCoverImagePath string
+		internalCoverImagePath, err = epubObj.AddImage(config.Current.CoverImage, "cover.png")
+		if err != nil {
+			return errors.Wrap(err, fmt.Sprintf("Error adding cover image '%s' to EPUB object", config.Current.CoverImage))
+		}
 
-	err = epubObj.SetCover(internalCoverImagePath, "")
-	if err != nil {
-		return errors.Wrap(err, fmt.Sprintf("Error setting internal image '%s' as cover image on EPUB object", internalCoverImagePath))
+		err = epubObj.SetCover(internalCoverImagePath, "")
+		if err != nil {
+			return errors.Wrap(err, fmt.Sprintf("Error setting internal image '%s' as cover image on EPUB object", internalCoverImagePath))
+		}
 	}
 
 	headingTitleRegex := regexp.MustCompile(`(?s)<h1>(.*)</h1>`)
@@ -116,9 +119,11 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 		epubObj.EmbedImages()
 	}
 
-	_, err = epubObj.AddCSS(config.Current.StyleFile, "style.css")
-	if err != nil {
-		return errors.Wrap(err, fmt.Sprintf("Error adding CSS file %s to EPUB object", config.Current.StyleFile))
+	if config.Current.StyleFile != "" {
+		_, err = epubObj.AddCSS(config.Current.StyleFile, "style.css")
+		if err != nil {
+			return errors.Wrap(err, fmt.Sprintf("Error adding CSS file %s to EPUB object", config.Current.StyleFile))
+		}
 	}
 
 	//for _, image := range images {
-- 
2.43.0


From e40e63e983f1bbd83c111c502f313a9f832c7bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 49/89] fix: internal driver fails on embedding fonts

---
 src/generator/epub.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/epub.go b/src/generator/epub.go
index f2e3ea6..99a059d 100644
--- a/src/generator/epub.go
+++ b/src/generator/epub.go
@@ -139,7 +139,7 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 	// TODO Test if this if working. The name in the CSS style and the name inside the EPUB probably need to match.
 	for _, fontFile := range config.Current.FontFiles {
 		sigolo.Debugf("Add font file %s to EPUB object", fontFile)
-		_, err = epubObj.AddFont(fontFile, fontFile)
+		_, err = epubObj.AddFont(fontFile, "")
 		if err != nil {
 			return errors.Wrap(err, fmt.Sprintf("Error adding font file %s to EPUB object", fontFile))
 		}
-- 
2.43.0


From 048b4778224a9db0bd3dc010894bdc3d9347a169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 50/89] fix: internal driver does not embed images

---
 src/generator/epub.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/generator/epub.go b/src/generator/epub.go
index 99a059d..e465859 100644
--- a/src/generator/epub.go
+++ b/src/generator/epub.go
@@ -2,9 +2,12 @@ package generator
 
 import (
 	"fmt"
+	"net/url"
 	"os"
+	"path/filepath"
 	"regexp"
 	"strconv"
+	"strings"
 	"wiki2book/config"
 	"wiki2book/util"
 
@@ -98,6 +101,7 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 		}
 	}
 
+	internalImagePaths := map[string]string{}
 	headingTitleRegex := regexp.MustCompile(`(?s)<h1>(.*)</h1>`)
 	var fileBytes []byte
 	for _, sourceFile := range sourceFiles {
@@ -107,7 +111,7 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 			return errors.Wrap(err, fmt.Sprintf("Error reading source file '%s' to add it to the EPUB object", sourceFile))
 		}
 
-		fileContent := string(fileBytes)
+		fileContent := embedImages(epubObj, string(fileBytes), internalImagePaths)
 
 		sectionTitle := headingTitleRegex.FindStringSubmatch(fileContent)[1]
 
@@ -116,7 +120,6 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 		if err != nil {
 			return errors.Wrap(err, fmt.Sprintf("Error reading source file %s to add it to the EPUB object", sourceFile))
 		}
-		epubObj.EmbedImages()
 	}
 
 	if config.Current.StyleFile != "" {
@@ -152,3 +155,29 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 
 	return nil
 }
+
+// embedImages adds all images of the HTML content, whose sources are (URL-encoded) paths relative to the cache folder, to
+// the EPUB object and returns the content with the paths within the EPUB. The given map contains the already added images.
+func embedImages(epubObj *epub.Epub, fileContent string, internalImagePaths map[string]string) string {
+	imageSourceRegex := regexp.MustCompile(`(<img [^>]*?src=")(\./[^"]*)`)
+	return imageSourceRegex.ReplaceAllStringFunc(fileContent, func(imageTag string) string {
+		match := imageSourceRegex.FindStringSubmatch(imageTag)
+		imageSource := match[2]
+
+		internalImagePath, alreadyAdded := internalImagePaths[imageSource]
+		if !alreadyAdded {
+			imagePath, err := url.PathUnescape(imageSource)
+			if err == nil {
+				internalName := fmt.Sprintf("image%04d%s", len(internalImagePaths)+1, strings.ToLower(filepath.Ext(imagePath)))
+				internalImagePath, err = epubObj.AddImage(filepath.Join(config.Current.CacheDir, imagePath), internalName)
+			}
+			if err != nil {
+				sigolo.Warnf("Unable to add image '%s' to EPUB object: %s", imageSource, err.Error())
+				return imageTag
+			}
+			internalImagePaths[imageSource] = internalImagePath
+		}
+
+		return match[1] + internalImagePath
+	})
+}
-- 
2.43.0


From af6154f86f17b394916d4f946bccc7a1e3e093ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 51/89] fix: a kill while fixing the size of an SVG left a
 partial file in the cache

---
 src/image/svg.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/image/svg.go b/src/image/svg.go
index 7c799f5..3f7dccd 100644
--- a/src/image/svg.go
+++ b/src/image/svg.go
@@ -5,8 +5,10 @@ import (
 	"encoding/xml"
 	"fmt"
 	"os"
+	"path/filepath"
 	"regexp"
 	"strings"
+	"wiki2book/cache"
 	"wiki2book/util"
 
 	"github.com/hauke96/sigolo/v2"
@@ -69,9 +71,16 @@ func MakeSvgSizeAbsolute(filename string) error {
 		return err
 	}
 
-	err = os.WriteFile(filename, []byte(updatedSvgContent), 0644)
+	// Write to a temporary file first. This prevents broken files in the cache in case the application exits during writing.
+	tempFilename := filepath.Join(cache.GetTempPath(), filepath.Base(filename))
+	err = os.WriteFile(tempFilename, []byte(updatedSvgContent), 0644)
 	if err != nil {
-		return errors.Wrap(err, "Error writing SVG file "+filename)
+		return errors.Wrap(err, "Error writing temporary SVG file "+tempFilename)
+	}
+
+	err = util.CurrentFilesystem.Rename(tempFilename, filename)
+	if err != nil {
+		return errors.Wrap(err, "Error moving temporary SVG file to "+filename)
 	}
 
 	return nil
-- 
2.43.0


From b12016537bc32d0cfdf9c5221c9b238f0dfa7816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:04 +0000
Subject: [PATCH 52/89] fix: Consider single quotes and whitespaces around SVG
 size attributes

---
 src/image/svg.go | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/src/image/svg.go b/src/image/svg.go
index 3f7dccd..5b549c9 100644
--- a/src/image/svg.go
+++ b/src/image/svg.go
@@ -25,6 +25,8 @@ type SimpleSvgAttributes struct {
 var (
 	// Matches everything up to the root element in group 1 and the opening tag of the root element in group 2.
 	svgRootTagRegex        = regexp.MustCompile(`(?s)^((?:[^<]|<\?.*?\?>|<!--.*?-->|<!DOCTYPE[^\[>]*(?:\[.*?\]\s*)?>)*)(<(?:[\w-]+:)?svg(?:\s(?:[^>"']|"[^"]*"|'[^']*')*)?>)`)
+	// Matches one attribute with its name in group 1 and the quoted value in group 2.
+	svgAttributeRegex      = regexp.MustCompile(`\s([^\s=<>"'/]+)\s*=\s*("[^"]*"|'[^']*')`)
 	xmlNamespaceValueRegex = regexp.MustCompile(`&ns.*?;`) // Attributes like  xmlns="&ns_svg;"  cause error during Unmarshalling.
 )
 
@@ -95,23 +97,16 @@ func replaceRelativeSizeByViewboxSize(fileString string, filename string, oldAtt
 	}
 	rootTag := fileString[rootTagMatch[4]:rootTagMatch[5]]
 
-	// Find index of "viewbox" attribute
-	viewboxIndex := findAttribute(rootTag, "viewBox")
-	if viewboxIndex == -1 {
+	// Find value of "viewbox" attribute
+	viewboxValueStart, viewboxValueEnd := findAttributeValue(rootTag, "viewBox")
+	if viewboxValueStart == -1 {
 		// No "viewbox" attribute specified, so we can't change the width/height.
 		sigolo.Debugf("SVG file '%s' does not contain a 'viewBox' attribute. File stays unchanged.", filename)
 		return fileString
 	}
 
-	viewboxAttributeContentSlice := strings.SplitN(rootTag[viewboxIndex:], "\"", 3)
-	if len(viewboxAttributeContentSlice) == 1 {
-		// SVG file probably broken, at least we're not able to find a correct value for the viewbox attribute.
-		sigolo.Debugf("Unable to find 'viewBox' attribute values in file '%s'. File stays unchanged.", filename)
-		return fileString
-	}
-
 	var viewboxAttributeValues []string
-	viewboxAttributeString := viewboxAttributeContentSlice[1]
+	viewboxAttributeString := rootTag[viewboxValueStart:viewboxValueEnd]
 	sigolo.Tracef("Found viewBox=%s", viewboxAttributeString)
 	if strings.ContainsAny(viewboxAttributeString, ", \t\r\n") {
 		// The values are separated by commas and/or any number of whitespaces.
@@ -136,22 +131,24 @@ func replaceRelativeSizeByViewboxSize(fileString string, filename string, oldAtt
 	return fileString[:rootTagMatch[4]] + rootTag + fileString[rootTagMatch[5]:]
 }
 
-// findAttribute returns the index of the attribute with the given name within the given tag or -1.
-func findAttribute(tag string, name string) int {
-	match := regexp.MustCompile(`\s` + name + `="`).FindStringIndex(tag)
-	if match == nil {
-		return -1
+// findAttributeValue returns the start and end index of the value (without quotation marks) of the attribute with the
+// given name within the given tag or -1.
+func findAttributeValue(tag string, name string) (int, int) {
+	for _, match := range svgAttributeRegex.FindAllStringSubmatchIndex(tag, -1) {
+		if tag[match[2]:match[3]] == name {
+			return match[4] + 1, match[5] - 1
+		}
 	}
-	return match[0] + 1
+	return -1, -1
 }
 
 // replaceAttribute sets the attribute with the given name to the new value in case it has the given old value.
 func replaceAttribute(tag string, name string, oldValue string, newValue string) string {
-	index := findAttribute(tag, name)
-	if index == -1 {
+	start, end := findAttributeValue(tag, name)
+	if start == -1 || tag[start:end] != oldValue {
 		return tag
 	}
-	return tag[:index] + strings.Replace(tag[index:], name+"=\""+oldValue+"\"", name+"=\""+newValue+"\"", 1)
+	return tag[:start] + newValue + tag[end:]
 }
 
 func parseSimpleSvgAttributes(fileContent []byte, filename string) (*SimpleSvgAttributes, error) {
-- 
2.43.0


From 23a81eb48ae3ec5ffdf869751ae1038e99c193e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 53/89] fix: Use only the first heading as section title in the
 internal EPUB driver

---
 src/generator/epub.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/epub.go b/src/generator/epub.go
index e465859..0039faf 100644
--- a/src/generator/epub.go
+++ b/src/generator/epub.go
@@ -102,7 +102,7 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 	}
 
 	internalImagePaths := map[string]string{}
-	headingTitleRegex := regexp.MustCompile(`(?s)<h1>(.*)</h1>`)
+	headingTitleRegex := regexp.MustCompile(`(?s)<h1>(.*?)</h1>`)
 	var fileBytes []byte
 	for _, sourceFile := range sourceFiles {
 		sigolo.Debugf("Add source file %s to EPUB object", sourceFile)
-- 
2.43.0


From 1fcb19ee6a5e63eb059bf9ba78d4f444eb4fb9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 54/89] fix: Consider single quotes and whitespaces around SVG
 size attributes (formatting)

---
 src/image/svg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/image/svg.go b/src/image/svg.go
index 5b549c9..a72f946 100644
--- a/src/image/svg.go
+++ b/src/image/svg.go
@@ -24,7 +24,7 @@ type SimpleSvgAttributes struct {
 
 var (
 	// Matches everything up to the root element in group 1 and the opening tag of the root element in group 2.
-	svgRootTagRegex        = regexp.MustCompile(`(?s)^((?:[^<]|<\?.*?\?>|<!--.*?-->|<!DOCTYPE[^\[>]*(?:\[.*?\]\s*)?>)*)(<(?:[\w-]+:)?svg(?:\s(?:[^>"']|"[^"]*"|'[^']*')*)?>)`)
+	svgRootTagRegex = regexp.MustCompile(`(?s)^((?:[^<]|<\?.*?\?>|<!--.*?-->|<!DOCTYPE[^\[>]*(?:\[.*?\]\s*)?>)*)(<(?:[\w-]+:)?svg(?:\s(?:[^>"']|"[^"]*"|'[^']*')*)?>)`)
 	// Matches one attribute with its name in group 1 and the quoted value in group 2.
 	svgAttributeRegex      = regexp.MustCompile(`\s([^\s=<>"'/]+)\s*=\s*("[^"]*"|'[^']*')`)
 	xmlNamespaceValueRegex = regexp.MustCompile(`&ns.*?;`) // Attributes like  xmlns="&ns_svg;"  cause error during Unmarshalling.
-- 
2.43.0


From 619d4dcb7f2177392f25ccd088ccbab58137951f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 55/89] fix: Do not count HTML tags and entity names as words
 and characters in statistics

---
 src/generator/stats.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/generator/stats.go b/src/generator/stats.go
index 3e117c9..7a62238 100644
--- a/src/generator/stats.go
+++ b/src/generator/stats.go
@@ -5,8 +5,10 @@ import (
 	"cmp"
 	"encoding/json"
 	"fmt"
+	"html"
 	"io"
 	"math"
+	"regexp"
 	"slices"
 	"sort"
 	"strconv"
@@ -21,6 +23,12 @@ import (
 	"github.com/pkg/errors"
 )
 
+var (
+	// Tags within text, which do not separate words
+	inlineHtmlTagRegex = regexp.MustCompile(`(?i)</?(?:abbr|b|big|cite|code|del|em|font|i|ins|kbd|q|s|samp|small|span|strike|strong|sub|sup|tt|u|var)(?:\s[^<>]*)?/?>`)
+	htmlTagRegex       = regexp.MustCompile(`</?[a-zA-Z][^<>]*>`)
+)
+
 type StatsGenerator struct {
 	tokenMap map[string]parser.Token
 	stats    *articleStats
@@ -113,10 +121,22 @@ func (g *StatsGenerator) getToken(tokenKey string) (parser.Token, bool) {
 }
 
 func (g *StatsGenerator) expandSimpleString(content string) string {
-	g.stats.NumberOfCharacters += len([]rune(content))
+	// HTML tags are no readable text
+	text := inlineHtmlTagRegex.ReplaceAllString(content, "")
+	text = htmlTagRegex.ReplaceAllString(text, "\n")
+	g.countText(text)
+	return content
+}
+
+// countText adds the characters and words of the given text, in which HTML entities count as the characters they stand
+// for.
+func (g *StatsGenerator) countText(text string) {
+	text = html.UnescapeString(text)
+
+	g.stats.NumberOfCharacters += len([]rune(text))
 
 	inWord := false
-	for _, r := range content {
+	for _, r := range text {
 		if unicode.IsLetter(r) || unicode.IsNumber(r) {
 			if !inWord {
 				// New word starts
@@ -127,8 +147,6 @@ func (g *StatsGenerator) expandSimpleString(content string) string {
 			inWord = false
 		}
 	}
-
-	return content
 }
 
 func (g *StatsGenerator) expandMarker(content string) string {
@@ -259,7 +277,9 @@ func (g *StatsGenerator) expandMath(token parser.MathToken) (string, error) {
 }
 
 func (g *StatsGenerator) expandNowiki(token parser.NowikiToken) string {
-	return g.expandSimpleString(token.Content)
+	// The content is no HTML, so any tags are visible as normal text.
+	g.countText(token.Content)
+	return token.Content
 }
 
 func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
-- 
2.43.0


From 53e85828e079b68220e0599bf496a52916f4c4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:42 +0000
Subject: [PATCH 56/89] fix: Links to articles of the book were reported as
 uncovered when written with underscores or lower case initial

---
 src/generator/stats.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/generator/stats.go b/src/generator/stats.go
index 7a62238..0d73199 100644
--- a/src/generator/stats.go
+++ b/src/generator/stats.go
@@ -311,7 +311,7 @@ func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
 			return errors.Wrapf(err, "Error parsing JSON from stats file '%s'", statFile)
 		}
 
-		articles[stats.ArticleName] = stats
+		articles[normalizeTitle(stats.ArticleName)] = stats
 		articleNames = append(articleNames, stats.ArticleName)
 		combinedStats.NumberOfCharacters += stats.NumberOfCharacters
 		combinedStats.NumberOfWords += stats.NumberOfWords
@@ -330,7 +330,7 @@ func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
 
 	var uncoveredArticles []string
 	for articleName, count := range combinedStats.InternalLinks {
-		if _, ok := articles[articleName]; !ok {
+		if _, ok := articles[normalizeTitle(articleName)]; !ok {
 			combinedStats.UncoveredInternalLinks[articleName] += count
 			uncoveredArticles = append(uncoveredArticles, articleName)
 		}
@@ -379,6 +379,16 @@ func GenerateCombinedStats(statFiles []string, outputFilePath string) error {
 	return nil
 }
 
+// normalizeTitle returns the form of the title that MediaWiki uses to determine the article, because e.g. "foo_bar" and
+// "Foo bar" are the same article.
+func normalizeTitle(title string) string {
+	titleRunes := []rune(strings.Join(strings.Fields(strings.ReplaceAll(title, "_", " ")), " "))
+	if len(titleRunes) > 0 {
+		titleRunes[0] = unicode.ToUpper(titleRunes[0])
+	}
+	return string(titleRunes)
+}
+
 func generateJsonStatsContent(combinedStats *articleStats) ([]byte, error) {
 	outputConent, err := json.MarshalIndent(combinedStats, "", "  ")
 	if err != nil {
-- 
2.43.0


From 5f8d059bd308cd02c725863a786bb96272092ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:09 +0000
Subject: [PATCH 57/89] fix: Runs of quotes took an exponential amount of time
 to parse

---
 src/parser/formatting.go | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/parser/formatting.go b/src/parser/formatting.go
index 4ef7e99..cb2b003 100644
--- a/src/parser/formatting.go
+++ b/src/parser/formatting.go
@@ -22,6 +22,14 @@ type BoldItalicStackItem struct {
 	length   int
 }
 
+// boldItalicState contains everything the success of tokenizing bold and italic blocks depends on.
+type boldItalicState struct {
+	index        int
+	lastItemType BoldItalicStackItemType // -1 for an empty stack
+	isBoldOpen   bool
+	isItalicOpen bool
+}
+
 func (t *Tokenizer) parseBoldAndItalic(content string) string {
 	var success bool
 	index := 0
@@ -43,12 +51,12 @@ func (t *Tokenizer) parseBoldAndItalic(content string) string {
 
 		var stack []BoldItalicStackItem
 		// First try everything without repairing crossovers. Crossovers can happen even if a normal solution is possible.
-		success, stack = t.tokenizeBoldAndItalic(content, index, stack, false, false, false)
+		success, stack = t.tokenizeBoldAndItalic(content, index, stack, map[boldItalicState]bool{}, false, false, false)
 		if !success {
 			sigolo.Warnf("Unable to parse bold and italic tags WITHOUT repairing crossovers in: %s. I'll try it again with repairing crossovers enabled.", util.TruncString(content))
 			stack = []BoldItalicStackItem{}
 			// Okay, not try to repair crossovers.
-			success, stack = t.tokenizeBoldAndItalic(content, index, stack, true, false, false)
+			success, stack = t.tokenizeBoldAndItalic(content, index, stack, map[boldItalicState]bool{}, true, false, false)
 
 			if !success {
 				sigolo.Warnf("Unable to parse bold and italic tags EVEN WITH repairing crossovers in: %s. I'll just use the raw content.", util.TruncString(content))
@@ -93,7 +101,22 @@ func (t *Tokenizer) parseBoldAndItalic(content string) string {
 
 // tokenizeBoldAndItalic takes the content, an index in that content, if this index is currently in a bold or italic
 // block and a stack to parse the content for bold and italic blocks. It returns a success-bool and the resulting stack.
-func (t *Tokenizer) tokenizeBoldAndItalic(content string, index int, stack []BoldItalicStackItem, repairCrossovers, isBoldOpen, isItalicOpen bool) (bool, []BoldItalicStackItem) {
+// All states, for which tokenizing failed, are stored in the given map, because trying them again and again takes an
+// exponential amount of time.
+func (t *Tokenizer) tokenizeBoldAndItalic(content string, index int, stack []BoldItalicStackItem, failedStates map[boldItalicState]bool, repairCrossovers, isBoldOpen, isItalicOpen bool) (success bool, resultStack []BoldItalicStackItem) {
+	state := boldItalicState{index: index, lastItemType: -1, isBoldOpen: isBoldOpen, isItalicOpen: isItalicOpen}
+	if len(stack) > 0 {
+		state.lastItemType = stack[len(stack)-1].itemType
+	}
+	if failedStates[state] {
+		return false, stack
+	}
+	defer func() {
+		if !success {
+			failedStates[state] = true
+		}
+	}()
+
 	// The idea of this approach:
 	// Find the next possible match for a start/stop of an italic/bold block. Put that item on the stack (e.g.
 	// BOLD_START), increase the index and recursively move on to further parse the content. Whenever something's
@@ -136,7 +159,7 @@ func (t *Tokenizer) tokenizeBoldAndItalic(content string, index int, stack []Bol
 			}
 
 			if continueParsingAsItalicToken {
-				success, newStack := t.tokenizeBoldAndItalic(content, index+2, newStack, repairCrossovers, isBoldOpen, !isItalicOpen)
+				success, newStack := t.tokenizeBoldAndItalic(content, index+2, newStack, failedStates, repairCrossovers, isBoldOpen, !isItalicOpen)
 
 				if success {
 					// path went well -> end recursion and return
@@ -171,7 +194,7 @@ func (t *Tokenizer) tokenizeBoldAndItalic(content string, index int, stack []Bol
 				}
 			}
 
-			success, newStack := t.tokenizeBoldAndItalic(content, index+3, newStack, repairCrossovers, !isBoldOpen, isItalicOpen)
+			success, newStack := t.tokenizeBoldAndItalic(content, index+3, newStack, failedStates, repairCrossovers, !isBoldOpen, isItalicOpen)
 
 			if success {
 				// path went well -> end recursion and return
-- 
2.43.0


From 5bd75dc61fe19175401a3c48f4d2f5b9ddff956c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:25 +0000
Subject: [PATCH 58/89] fix: Placeholder look-alikes in template results no
 longer cause an endless loop

---
 src/parser/template.go | 43 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/src/parser/template.go b/src/parser/template.go
index 575237a..e8c1c4d 100644
--- a/src/parser/template.go
+++ b/src/parser/template.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"fmt"
+	"regexp"
 	"strings"
 	"wiki2book/util"
 
@@ -17,6 +18,8 @@ var (
 	templateEndToken      = "}}"
 	templateStartTokenLen = len(templateStartToken)
 	templateEndTokenLen   = len(templateEndToken)
+
+	templatePlaceholderRegex = regexp.MustCompile(`\$\$TEMPLATE_PLACEHOLDER_([0-9a-f]+)\$\$`)
 )
 
 // evaluateTemplates evaluates all templates including nested ones.
@@ -32,33 +35,29 @@ func (t *Tokenizer) evaluateTemplates(content string) (string, error) {
 	}
 	sigolo.Debug("Finished finding and evaluating templates")
 
-	// Replace all template placeholders with the actual content until no placeholders are unresolved. This is not very
-	// elegant or fast but due to the nesting a simple and working approach.
 	sigolo.Debugf("Replace %d template placeholder with evaluated content", len(placeholderToContent))
-	for strings.Contains(content, templatePlaceholderPrefix) {
-		sigolo.Tracef("Check content for template placeholders (%d remain)", len(placeholderToContent))
-
-		replacedPlaceholder := false
-		for key, template := range placeholderToContent {
-			placeholder := fmt.Sprintf(templatePlaceholderTemplate, key)
-			containsPlaceholder := strings.Contains(content, placeholder)
-			sigolo.Tracef("Check template placeholder %s -> content contains placeholder? %v", key, containsPlaceholder)
+	content = replaceTemplatePlaceholders(content, placeholderToContent, map[string]bool{})
+	sigolo.Debug("Finished replacing template placeholders. Template handling done.")
 
-			if containsPlaceholder {
-				content = strings.ReplaceAll(content, placeholder, template)
-				sigolo.Tracef("Replaced template placeholder %s in content", key)
-				replacedPlaceholder = true
-			}
-		}
+	return content, nil
+}
 
-		if !replacedPlaceholder {
-			// The content contains text that only looks like a placeholder
-			break
+// replaceTemplatePlaceholders replaces all template placeholders with the actual content, which might contain further
+// placeholders due to the nesting of templates. Text that only looks like a placeholder stays as it is. This includes
+// placeholders of a template within its own content (their keys are part of the given activeKeys), because they would
+// never be completely replaced.
+func replaceTemplatePlaceholders(content string, placeholderToContent map[string]string, activeKeys map[string]bool) string {
+	return templatePlaceholderRegex.ReplaceAllStringFunc(content, func(placeholder string) string {
+		key := templatePlaceholderRegex.FindStringSubmatch(placeholder)[1]
+		template, ok := placeholderToContent[key]
+		if !ok || activeKeys[key] {
+			return placeholder
 		}
-	}
-	sigolo.Debug("Finished replacing template placeholders. Template handling done.")
 
-	return content, nil
+		activeKeys[key] = true
+		defer delete(activeKeys, key)
+		return replaceTemplatePlaceholders(template, placeholderToContent, activeKeys)
+	})
 }
 
 func (t *Tokenizer) replaceTemplateByPlaceholders(content string, placeholderToContent map[string]string) (string, error) {
-- 
2.43.0


From 1abb0ef9493de2ad198de5ac8018d395053a6000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:07 +0000
Subject: [PATCH 59/89] fix: Text that looks like a token key is handled as
 text

---
 src/generator/expand.go | 38 +++++++++++++++++++++-----------------
 src/parser/pattern.go   |  1 +
 src/parser/tokenizer.go | 25 ++++++++++++++++++++++---
 3 files changed, 44 insertions(+), 20 deletions(-)

diff --git a/src/generator/expand.go b/src/generator/expand.go
index 4391bed..839ec59 100644
--- a/src/generator/expand.go
+++ b/src/generator/expand.go
@@ -73,33 +73,36 @@ func expand(expansionHandler ExpansionHandler, content interface{}) (string, err
 func expandString(g ExpansionHandler, content string) (string, error) {
 	content = g.expandMarker(content)
 
-	// Only complete token keys are considered, other "$$" in the content are normal text.
-	matches := tokenRegex.FindAllStringIndex(content, -1)
-
-	if len(matches) == 0 {
-		// no token in content
-		return g.expandSimpleString(content), nil
-	}
-
 	// Index where pure text starts (e.g. after a token)
 	textSegmentStartIndex := 0
+	// Index from where on the next token is searched
+	searchIndex := 0
 	newContent := ""
 
-	for _, match := range matches {
-		// 1. Expand normal text before token (if there is any text before the token)
-		if textSegmentStartIndex < match[0] {
-			newContent += g.expandSimpleString(content[textSegmentStartIndex:match[0]])
+	for {
+		// Only complete token keys are considered, other "$$" in the content are normal text.
+		match := tokenRegex.FindStringIndex(content[searchIndex:])
+		if match == nil {
+			break
 		}
-
-		// 2. Expand token and its content
-		tokenKey := content[match[0]:match[1]]
+		startIndex, endIndex := searchIndex+match[0], searchIndex+match[1]
+		tokenKey := content[startIndex:endIndex]
 
 		tokenContent, hasTokenKey := g.getToken(tokenKey)
 		if !hasTokenKey {
-			return "", errors.Errorf("Token key %s not found in token map", tokenKey)
+			// Normal text that only looks like a token key
+			sigolo.Debugf("Token key %s not found in token map, treat it as text", tokenKey)
+			searchIndex = startIndex + len("$$")
+			continue
 		}
 		sigolo.Tracef("Found token %s -> %#v", tokenKey, tokenContent)
 
+		// 1. Expand normal text before token (if there is any text before the token)
+		if textSegmentStartIndex < startIndex {
+			newContent += g.expandSimpleString(content[textSegmentStartIndex:startIndex])
+		}
+
+		// 2. Expand token and its content
 		expandedContent, err := expand(g, tokenContent)
 		if err != nil {
 			return "", err
@@ -108,7 +111,8 @@ func expandString(g ExpansionHandler, content string) (string, error) {
 		newContent += expandedContent
 
 		// Continue after the token
-		textSegmentStartIndex = match[1]
+		textSegmentStartIndex = endIndex
+		searchIndex = endIndex
 	}
 
 	// Expand the part behind the last token (if it exists)
diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 6ede2a8..8d5e4a9 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -24,6 +24,7 @@ const (
 )
 
 var (
+	tokenRegex     = regexp.MustCompile(TOKEN_REGEX)
 	tokenLineRegex = regexp.MustCompile(TOKEN_LINE_REGEX)
 )
 
diff --git a/src/parser/tokenizer.go b/src/parser/tokenizer.go
index 4ca9258..c178f88 100644
--- a/src/parser/tokenizer.go
+++ b/src/parser/tokenizer.go
@@ -47,6 +47,7 @@ const (
 type Tokenizer struct {
 	tokenMap         map[string]Token
 	tokenCounter     int
+	reservedKeys     map[string]bool // Texts in the content that only look like token keys
 	images           []string
 	wikipediaService wikipedia.WikipediaService
 
@@ -102,6 +103,7 @@ func (t *Tokenizer) Tokenize(content string, title string) (*Article, error) {
 	}
 
 	sigolo.Debugf("Tokenize article '%s' [4/4]: Tokenize content", title)
+	t.reservedKeys = findTokenKeys(content)
 	content = t.tokenizeContent(t, content)
 
 	sigolo.Debugf("Tokenize article '%s': Tokenization done", title)
@@ -120,9 +122,26 @@ func (t *Tokenizer) getTokenMap() map[string]Token {
 }
 
 func (t *Tokenizer) getToken(tokenType string) string {
-	token := fmt.Sprintf(TOKEN_TEMPLATE, tokenType, t.tokenCounter)
-	t.tokenCounter++
-	return token
+	for {
+		token := fmt.Sprintf(TOKEN_TEMPLATE, tokenType, t.tokenCounter)
+		t.tokenCounter++
+		if !t.reservedKeys[token] {
+			return token
+		}
+	}
+}
+
+// findTokenKeys returns all texts of the given content that look like token keys, even overlapping ones.
+func findTokenKeys(content string) map[string]bool {
+	keys := map[string]bool{}
+	for {
+		match := tokenRegex.FindStringIndex(content)
+		if match == nil {
+			return keys
+		}
+		keys[content[match[0]:match[1]]] = true
+		content = content[match[0]+len("$$"):]
+	}
 }
 
 func (t *Tokenizer) setToken(key string, tokenContent string) {
-- 
2.43.0


From a118005ed635c8b1dc55873d0c2a8842161d1415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:42 +0000
Subject: [PATCH 60/89] fix: A token key within its own token is handled as
 text

---
 src/generator/expand.go | 29 +++++++++++++++++++++++++++--
 src/generator/html.go   |  2 ++
 src/generator/stats.go  |  1 +
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/generator/expand.go b/src/generator/expand.go
index 839ec59..2754853 100644
--- a/src/generator/expand.go
+++ b/src/generator/expand.go
@@ -89,9 +89,9 @@ func expandString(g ExpansionHandler, content string) (string, error) {
 		tokenKey := content[startIndex:endIndex]
 
 		tokenContent, hasTokenKey := g.getToken(tokenKey)
-		if !hasTokenKey {
+		if !hasTokenKey || !g.beginToken(tokenKey) {
 			// Normal text that only looks like a token key
-			sigolo.Debugf("Token key %s not found in token map, treat it as text", tokenKey)
+			sigolo.Debugf("Token key %s not found in token map or part of its own token, treat it as text", tokenKey)
 			searchIndex = startIndex + len("$$")
 			continue
 		}
@@ -104,6 +104,7 @@ func expandString(g ExpansionHandler, content string) (string, error) {
 
 		// 2. Expand token and its content
 		expandedContent, err := expand(g, tokenContent)
+		g.endToken(tokenKey)
 		if err != nil {
 			return "", err
 		}
@@ -123,8 +124,32 @@ func expandString(g ExpansionHandler, content string) (string, error) {
 	return newContent, nil
 }
 
+// activeTokens contains the keys of all tokens that are currently being expanded. A token never contains itself, which
+// means a key of an active token is just text looking like a token key.
+type activeTokens struct {
+	keys map[string]bool
+}
+
+// beginToken marks the token as being expanded and returns false if this was already the case.
+func (a *activeTokens) beginToken(tokenKey string) bool {
+	if a.keys[tokenKey] {
+		return false
+	}
+	if a.keys == nil {
+		a.keys = map[string]bool{}
+	}
+	a.keys[tokenKey] = true
+	return true
+}
+
+func (a *activeTokens) endToken(tokenKey string) {
+	delete(a.keys, tokenKey)
+}
+
 type ExpansionHandler interface {
 	getToken(string) (parser.Token, bool)
+	beginToken(string) bool
+	endToken(string)
 	expandSimpleString(content string) string
 	expandMarker(content string) string
 	expandHeadings(token parser.HeadingToken) (string, error)
diff --git a/src/generator/html.go b/src/generator/html.go
index 9993f8e..6b9b5c0 100644
--- a/src/generator/html.go
+++ b/src/generator/html.go
@@ -95,6 +95,8 @@ type HtmlGenerator struct {
 	// TODO must they be public?
 	TokenMap         map[string]parser.Token
 	WikipediaService wikipedia.WikipediaService
+
+	activeTokens
 }
 
 // Generate creates the HTML for the given article and returns either the HTML file path or an error.
diff --git a/src/generator/stats.go b/src/generator/stats.go
index 0d73199..ad683f9 100644
--- a/src/generator/stats.go
+++ b/src/generator/stats.go
@@ -30,6 +30,7 @@ var (
 )
 
 type StatsGenerator struct {
+	activeTokens
 	tokenMap map[string]parser.Token
 	stats    *articleStats
 }
-- 
2.43.0


From e2a741a201bbd3a8a796f5653c984af2feca5b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:55 +0000
Subject: [PATCH 61/89] fix: Keep templates, links and comments within nowiki
 and math as they are

---
 src/parser/mask.go      | 40 ++++++++++++++++++++++++++++++++++++++++
 src/parser/template.go  |  1 +
 src/parser/tokenizer.go |  7 +++++--
 3 files changed, 46 insertions(+), 2 deletions(-)
 create mode 100644 src/parser/mask.go

diff --git a/src/parser/mask.go b/src/parser/mask.go
new file mode 100644
index 0000000..40e65b5
--- /dev/null
+++ b/src/parser/mask.go
@@ -0,0 +1,40 @@
+package parser
+
+import (
+	"fmt"
+	"regexp"
+	"strings"
+)
+
+const maskTemplate = "$$MASKED_CONTENT_%d$$"
+
+// literalAreaRegex matches all areas with literal text, which must neither be cleaned nor evaluated. Comments are matched
+// as well, because tags within comments are no such areas.
+var literalAreaRegex = regexp.MustCompile(`(?s)<!--.*?-->|(?i:<nowiki>).*?(?i:</nowiki>)|<math[^\n]*?>.*?</math>`)
+
+// maskLiteralAreas replaces nowiki and math areas by unique masks. This makes sure that their content, which might look
+// like templates, links, comments, etc., is not touched. Use unmaskLiteralAreas to get the original text back.
+func (t *Tokenizer) maskLiteralAreas(content string) string {
+	unmaskedContent := content
+	return literalAreaRegex.ReplaceAllStringFunc(content, func(area string) string {
+		if strings.HasPrefix(area, "<!--") {
+			return area
+		}
+
+		mask := fmt.Sprintf(maskTemplate, t.maskCounter)
+		for strings.Contains(unmaskedContent, mask) {
+			// Someone wrote a text that looks like a mask
+			t.maskCounter++
+			mask = fmt.Sprintf(maskTemplate, t.maskCounter)
+		}
+		t.maskCounter++
+
+		t.masks = append(t.masks, mask, area)
+		return mask
+	})
+}
+
+// unmaskLiteralAreas replaces the masks within the content by the original text.
+func (t *Tokenizer) unmaskLiteralAreas(content string) string {
+	return strings.NewReplacer(t.masks...).Replace(content)
+}
diff --git a/src/parser/template.go b/src/parser/template.go
index e8c1c4d..261d274 100644
--- a/src/parser/template.go
+++ b/src/parser/template.go
@@ -86,6 +86,7 @@ func (t *Tokenizer) replaceTemplateByPlaceholders(content string, placeholderToC
 				templateText = templateStartToken + newContent
 			}
 
+			templateText = t.unmaskLiteralAreas(templateText)
 			key := util.Hash(templateText)
 
 			sigolo.Tracef("Evaluate template: %s", util.TruncString(templateText))
diff --git a/src/parser/tokenizer.go b/src/parser/tokenizer.go
index c178f88..7bbf018 100644
--- a/src/parser/tokenizer.go
+++ b/src/parser/tokenizer.go
@@ -47,6 +47,8 @@ const (
 type Tokenizer struct {
 	tokenMap         map[string]Token
 	tokenCounter     int
+	masks            []string // Alternating list of masks and the text they stand for
+	maskCounter      int
 	reservedKeys     map[string]bool // Texts in the content that only look like token keys
 	images           []string
 	wikipediaService wikipedia.WikipediaService
@@ -85,7 +87,7 @@ func (t *Tokenizer) Tokenize(content string, title string) (*Article, error) {
 	var err error
 
 	sigolo.Debugf("Tokenize article '%s' [1/4]: First cleanup", title)
-	content, err = t.clean(content)
+	content, err = t.clean(t.maskLiteralAreas(content))
 	if err != nil {
 		return nil, err
 	}
@@ -97,12 +99,13 @@ func (t *Tokenizer) Tokenize(content string, title string) (*Article, error) {
 	}
 
 	sigolo.Debugf("Tokenize article '%s' [3/4]: Second cleanup", title)
-	content, err = t.clean(content)
+	content, err = t.clean(t.maskLiteralAreas(content))
 	if err != nil {
 		return nil, err
 	}
 
 	sigolo.Debugf("Tokenize article '%s' [4/4]: Tokenize content", title)
+	content = t.unmaskLiteralAreas(content)
 	t.reservedKeys = findTokenKeys(content)
 	content = t.tokenizeContent(t, content)
 
-- 
2.43.0


From f7301ac8692de9dae418755fe5b6d1b8d17be3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:13 +0000
Subject: [PATCH 62/89] fix: Keep line breaks in front of comments at the
 beginning of a line with text

---
 src/parser/cleaner.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index c9df6d8..4c17c86 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -53,9 +53,9 @@ func (t *Tokenizer) removeComments(content string) string {
 			nonCommentSegment := segments[0]
 
 			// Remove potentially trailing newline:
-			if len(nonCommentSegment) > 0 && nonCommentSegment[len(nonCommentSegment)-1] == '\n' {
-				// If this segments ends with a newline, the comment following it started with a newline. We remove the
-				// newline, because otherwise, there will be additional blank lines between former comments. Example:
+			if strings.HasSuffix(nonCommentSegment, "\n") && startsWithEmptyLine(splitContent[i+1:]) {
+				// If this segments ends with a newline and there are just comments until the end of the line, we remove
+				// the newline, because otherwise, there will be additional blank lines between former comments. Example:
 				// "foo\n<!--comment-->\nbar"  would turn into  "foo\n\nbar"  instead of  "foo\nbar"
 				nonCommentSegment = nonCommentSegment[:len(nonCommentSegment)-1]
 			}
@@ -67,6 +67,24 @@ func (t *Tokenizer) removeComments(content string) string {
 	return strings.Join(resultSegments, "")
 }
 
+// startsWithEmptyLine returns true when the text behind a comment contains only whitespaces and further comments until the
+// end of the line. The text is split by the end token of comments.
+func startsWithEmptyLine(splitContent []string) bool {
+	for i, splitItem := range splitContent {
+		splitItem = strings.TrimLeft(splitItem, " \t")
+		if strings.HasPrefix(splitItem, "\n") {
+			return true
+		}
+		if i == len(splitContent)-1 {
+			return splitItem == ""
+		}
+		if !strings.HasPrefix(splitItem, "<!--") {
+			return false
+		}
+	}
+	return true
+}
+
 // removeUnwantedInternalLinks removes all kind of unwanted links. This method leaves all allowed internal links
 // unchanged (links with a certain prefix). Category prefixes and all other not explicitly allowed prefixes are
 // considered unwanted and each such link will be removed.
-- 
2.43.0


From 85a5a092d0479e3534afe8b4f183d163e0b385a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:10 +0000
Subject: [PATCH 63/89] fix: Articles with existing HTML have been missing in
 the book

---
 src/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.go b/src/main.go
index 4ccf24f..b0cfaa4 100644
--- a/src/main.go
+++ b/src/main.go
@@ -424,6 +424,9 @@ func processArticle(articleName string, currentArticleNumber int, totalNumberOfA
 	articleOutputFile := ""
 	if !shouldRecreateHtml(htmlFilePath, config.Current.ForceRegenerateHtml) {
 		sigolo.Debugf("Article '%s' (%d/%d): HTML for article does already exist. Skip parsing and HTML generation.", articleName, currentArticleNumber, totalNumberOfArticles)
+		var err error
+		articleOutputFile, err = util.ToAbsolutePath(htmlFilePath)
+		sigolo.FatalCheck(err)
 	} else {
 		sigolo.Debugf("Article '%s' (%d/%d): Download article", articleName, currentArticleNumber, totalNumberOfArticles)
 		wikiArticleDto, err := wikipediaService.DownloadArticle(wikipediaArticleHost, articleName)
-- 
2.43.0


From 7d0bcf1ded71b7914ed297be7e9bf19696de0651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:25 +0000
Subject: [PATCH 64/89] fix: Indented tables have been turned into lists and
 lost their structure

---
 src/parser/list.go  | 13 ++++++++++++-
 src/parser/table.go |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/parser/list.go b/src/parser/list.go
index 3d97a63..a9b2fd3 100644
--- a/src/parser/list.go
+++ b/src/parser/list.go
@@ -50,8 +50,19 @@ func (t *Tokenizer) parseLists(content string) string {
 			continue
 		}
 
+		if tableStartRegex.MatchString(line) {
+			// An indented table starts here. It becomes part of a list as soon as it's replaced by its token.
+			continue
+		}
+
+		// The list ends when an indented table starts
+		listEndIndex := i
+		for listEndIndex < len(lines) && !tableStartRegex.MatchString(strings.TrimSpace(lines[listEndIndex])) {
+			listEndIndex++
+		}
+
 		lineStartCharacter := string(line[0])
-		_, tokenKey, newIndex := t.tokenizeList(lines, i, lineStartCharacter)
+		_, tokenKey, newIndex := t.tokenizeList(lines[:listEndIndex], i, lineStartCharacter)
 
 		length := newIndex - i
 
diff --git a/src/parser/table.go b/src/parser/table.go
index 80b3c81..1540077 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -72,7 +72,7 @@ func (t *Tokenizer) tokenizeTables(lines []string, i int) (string, int) {
 	for ; i < len(lines); i++ {
 		line := strings.TrimSpace(lines[i])
 
-		if strings.HasPrefix(line, "{|") || strings.HasPrefix(line, ":{|") {
+		if tableStartRegex.MatchString(line) {
 			// another table starts
 			tableToken, i = t.tokenizeTables(lines, i)
 			tableLines = append(tableLines, tableToken)
-- 
2.43.0


From 2ef80df333a3bd46791ade809fb32332a9f25c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:30 +0000
Subject: [PATCH 65/89] fix: Text in front of a pipe symbol in a further line
 of a table cell vanished

---
 src/parser/table.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser/table.go b/src/parser/table.go
index 1540077..2a6d4d1 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -266,13 +266,15 @@ func (t *Tokenizer) tokenizeTableCaption(lines []string, i int) (TableCaptionTok
 func (t *Tokenizer) tokenizeTableEntry(content string) (string, TableColAttributeToken) {
 	var attributeToken TableColAttributeToken
 
-	splittedContent := strings.SplitN(content, "|", 2)
-	if len(splittedContent) < 2 {
+	// Only the first line can contain attributes.
+	firstLine, _, _ := strings.Cut(content, "\n")
+	attributes, _, hasAttributes := strings.Cut(firstLine, "|")
+	if !hasAttributes {
 		return t.tokenizeContent(t, content), attributeToken
 	}
 
-	attributeString := strings.TrimSpace(splittedContent[0])
-	entryText := t.tokenizeContent(t, splittedContent[1])
+	attributeString := strings.TrimSpace(attributes)
+	entryText := t.tokenizeContent(t, content[len(attributes)+1:])
 
 	var relevantTags []string
 
-- 
2.43.0


From 577b87281a72a11baf9f10e958aeec2e89698f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:03 +0000
Subject: [PATCH 66/89] fix: No paragraph break behind indented tables

---
 src/parser/table.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/table.go b/src/parser/table.go
index 2a6d4d1..5522b7d 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -41,12 +41,16 @@ func (t *Tokenizer) parseTables(content string) string {
 
 			// table starts in this line.
 			token, newIndex := t.tokenizeTables(lines, i)
+			if listPrefix != "" {
+				// Indented tables are list items. They become a token right now, so that no paragraph follows them.
+				token = t.parseLists(listPrefix + token)
+			}
 
 			length := newIndex - i
 
 			var newLines []string
 			newLines = append(newLines, lines[:i]...)
-			newLines = append(newLines, listPrefix+token)
+			newLines = append(newLines, token)
 			if textBehindTable := t.getTextBehindTable(lines, newIndex); textBehindTable != "" {
 				newLines = append(newLines, textBehindTable)
 			}
-- 
2.43.0


From 52f81899436f8439d5e44ae1995b2ee3dab7c914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:44 +0000
Subject: [PATCH 67/89] fix: Keep sub-lists inside of list items with a manual
 closing tag

---
 src/generator/html.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/generator/html.go b/src/generator/html.go
index 6b9b5c0..70e31ca 100644
--- a/src/generator/html.go
+++ b/src/generator/html.go
@@ -343,8 +343,13 @@ func (g *HtmlGenerator) expandListItem(token parser.ListItemToken) (string, erro
 			// item of the manual HTML within this list might contain additional arguments, so we use their item
 			// instead of the item from the template.
 			template = "%s"
-			if !strings.Contains(listItemString, "</li") {
+			if closingTagIndex := strings.LastIndex(listItemContent, "</li"); closingTagIndex == -1 {
 				template += "</li>"
+			} else {
+				// The sub-lists are part of the item and therefore belong in front of its own closing tag.
+				listItemContents[0] = listItemContent[:closingTagIndex]
+				listItemContents[len(listItemContents)-1] += listItemContent[closingTagIndex:]
+				listItemString = strings.Join(listItemContents, "\n")
 			}
 		} else {
 			template = TEMPLATE_LI
-- 
2.43.0


From 54afc069ccf877161f32ecabf60bb2932d52a7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:33 +0000
Subject: [PATCH 68/89] fix: Shorten file names that are too long for file
 systems

---
 src/util/files.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/util/files.go b/src/util/files.go
index 44ea1a4..5b5934d 100644
--- a/src/util/files.go
+++ b/src/util/files.go
@@ -19,6 +19,10 @@ const (
 	FileEndingWebp = ".webp"
 )
 
+// Most filesystems support names with up to 255 bytes. This leaves some space for the suffixes that are added to the
+// names of temporary and converted files.
+const maxFilenameLength = 235
+
 func ToRelativePaths(paths ...string) ([]string, error) {
 	var result = make([]string, len(paths))
 
@@ -137,7 +141,7 @@ func ToMB(size int64) float64 {
 // SanitizeFilename URL encodes characters, that are problematic for file paths. This function assumes, that the
 // parameter is a single filename not containing non-printable characters (e.g. ASCII 0-31) or reserved words like
 // "COM1" on Windows or "." on Linux. Only usually invalid printable characters are encoded, all other characters
-// (even special characters) stay unchanged.
+// (even special characters) stay unchanged. Names that are too long for a filesystem are shortened, but stay distinct.
 func SanitizeFilename(filename string) string {
 	/*
 		Not allowed in Windows filesystems:
@@ -155,6 +159,8 @@ func SanitizeFilename(filename string) string {
 		  / (forward slash)
 	*/
 
+	originalFilename := filename
+
 	filename = strings.ReplaceAll(filename, "%", "%25")
 	filename = strings.ReplaceAll(filename, "<", "%3C")
 	filename = strings.ReplaceAll(filename, ">", "%3E")
@@ -166,6 +172,20 @@ func SanitizeFilename(filename string) string {
 	filename = strings.ReplaceAll(filename, "?", "%3F")
 	filename = strings.ReplaceAll(filename, "*", "%2A")
 
+	if len(filename) > maxFilenameLength {
+		fileEnding := filepath.Ext(filename)
+		if len(fileEnding) > 10 {
+			fileEnding = ""
+		}
+		suffix := "_" + Hash(originalFilename) + fileEnding
+		filename = strings.ToValidUTF8(filename[:maxFilenameLength-len(suffix)], "")
+		if i := strings.LastIndex(filename, "%"); i != -1 && i > len(filename)-3 {
+			// Don't leave an incomplete encoded character.
+			filename = filename[:i]
+		}
+		filename += suffix
+	}
+
 	return filename
 }
 
-- 
2.43.0


From e9f4593ab80b919a72de6f9e8d87f0928027d87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:19 +0000
Subject: [PATCH 69/89] fix: Handle only links with a file prefix as images

---
 src/parser/image.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/parser/image.go b/src/parser/image.go
index 10a15ce..98ce922 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -220,13 +220,19 @@ func (t *Tokenizer) parseImages(content string) string {
 			continue
 		}
 
+		// The prefix "file" is also used for images of galleries and image maps without an own prefix.
+		filePrefix := strings.ToLower(content[startIndex[0]+2 : startIndex[1]-1])
+		if filePrefix != "file" && !util.Contains(config.Current.FilePrefixes, filePrefix) {
+			// No image, e.g. a broken link with a colon in its text
+			startIndex = findNextImage(content, startIndex[0]+2)
+			continue
+		}
+
 		imageContent := content[startIndex[1]:endIndex]
 		imageContent = t.tokenizeContent(t, imageContent)
 		imageContent = t.escapeImages(imageContent)
 
-		filePrefix := strings.ToLower(strings.SplitN(imageContent, ":", 2)[0])
-
-		if imageContent == "" || !util.Contains(config.Current.FilePrefixes, filePrefix) {
+		if imageContent == "" {
 			content = content[0:startIndex[0]] + content[endIndex+2:]
 		} else {
 			options := strings.Split(imageContent, "|")
-- 
2.43.0


From 3dc89842e991c3613d40ac7d56db6bdbf3fb027c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:55 +0000
Subject: [PATCH 70/89] fix: Allow spaces around the prefix of files

---
 src/parser/cleaner.go | 4 ++--
 src/parser/image.go   | 2 +-
 src/parser/link.go    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/cleaner.go b/src/parser/cleaner.go
index 4c17c86..3cce636 100644
--- a/src/parser/cleaner.go
+++ b/src/parser/cleaner.go
@@ -111,7 +111,7 @@ func (t *Tokenizer) removeUnwantedInternalLinks(content string) string {
 			// be treated as normal internal links, i.e. the "SomeLinkText" in this example should stay.
 			isNormalLinkToCategory := content[i+2] == ':'
 
-			if len(allPrefixes) > 0 && util.Contains(config.Current.FilePrefixes, strings.ToLower(allPrefixes[0])) {
+			if len(allPrefixes) > 0 && util.Contains(config.Current.FilePrefixes, strings.ToLower(strings.TrimSpace(allPrefixes[0]))) {
 				// We found an image. This extra treatment exists because images might contain colons and that would
 				// disturb the rest of the parsing below. Therefore, images get this fast exit.
 				continue
@@ -126,7 +126,7 @@ func (t *Tokenizer) removeUnwantedInternalLinks(content string) string {
 
 			// Go through all prefixes and see if any one is forbidden.
 			for j := 0; j < len(allPrefixes); j++ {
-				linkPrefix := strings.ToLower(allPrefixes[j])
+				linkPrefix := strings.ToLower(strings.TrimSpace(allPrefixes[j]))
 
 				isForbiddenPrefix := !util.Contains(config.Current.FilePrefixes, linkPrefix) && !util.Contains(config.Current.AllowedLinkPrefixes, linkPrefix)
 				isCategory := util.Contains(config.Current.CategoryPrefixes, linkPrefix)
diff --git a/src/parser/image.go b/src/parser/image.go
index 98ce922..5d0c110 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -221,7 +221,7 @@ func (t *Tokenizer) parseImages(content string) string {
 		}
 
 		// The prefix "file" is also used for images of galleries and image maps without an own prefix.
-		filePrefix := strings.ToLower(content[startIndex[0]+2 : startIndex[1]-1])
+		filePrefix := strings.ToLower(strings.TrimSpace(content[startIndex[0]+2 : startIndex[1]-1]))
 		if filePrefix != "file" && !util.Contains(config.Current.FilePrefixes, filePrefix) {
 			// No image, e.g. a broken link with a colon in its text
 			startIndex = findNextImage(content, startIndex[0]+2)
diff --git a/src/parser/link.go b/src/parser/link.go
index 89709fe..d3368b2 100644
--- a/src/parser/link.go
+++ b/src/parser/link.go
@@ -61,7 +61,7 @@ func (t *Tokenizer) parseLink(content string, openingBrackets string, closingBra
 
 		// Ignore all kind of files, they are parsed elsewhere
 		if strings.Contains(splitItem, ":") {
-			filePrefix := strings.ToLower(strings.SplitN(splitItem, ":", 2)[0])
+			filePrefix := strings.ToLower(strings.TrimSpace(strings.SplitN(splitItem, ":", 2)[0]))
 			if util.Contains(config.Current.FilePrefixes, filePrefix) {
 				resultSegments = append(resultSegments, openingBrackets)
 				resultSegments = append(resultSegments, splitItem)
-- 
2.43.0


From 41b5ea56d9f0e48fbd29e39d687615259fe9582b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:16 +0000
Subject: [PATCH 71/89] fix: Ignore spaces around image parameters

---
 src/parser/image.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/image.go b/src/parser/image.go
index 5d0c110..d6d20d2 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -247,6 +247,7 @@ func (t *Tokenizer) parseImages(content string) string {
 			// Do some cleanup: Remove definitely uninteresting options.
 			var filteredOptions []string
 			for _, option := range options {
+				option = strings.TrimSpace(option)
 				if !util.HasAnyPrefix(option, config.Current.IgnoredImageParams...) {
 					filteredOptions = append(filteredOptions, option)
 				}
-- 
2.43.0


From fcb160481337bbc2cb3200e9702cb6f67f7a2dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:58 +0000
Subject: [PATCH 72/89] fix: Ignore only image parameters with exactly the
 configured name

---
 src/parser/image.go   | 11 ++++++++++-
 src/parser/pattern.go |  1 +
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parser/image.go b/src/parser/image.go
index d6d20d2..ed2ea6e 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -248,7 +248,7 @@ func (t *Tokenizer) parseImages(content string) string {
 			var filteredOptions []string
 			for _, option := range options {
 				option = strings.TrimSpace(option)
-				if !util.HasAnyPrefix(option, config.Current.IgnoredImageParams...) {
+				if !isIgnoredImageParam(option) {
 					filteredOptions = append(filteredOptions, option)
 				}
 			}
@@ -327,6 +327,15 @@ func (t *Tokenizer) parseImages(content string) string {
 	return content
 }
 
+// isIgnoredImageParam returns true when the option of an image is one of the ignored parameters, with or without a value
+// (e.g. "center", "alt=some text" or "page 3"). Other options, e.g. captions, might start with the same characters.
+func isIgnoredImageParam(option string) bool {
+	return slices.ContainsFunc(config.Current.IgnoredImageParams, func(param string) bool {
+		value, hasParamAsPrefix := strings.CutPrefix(option, param)
+		return hasParamAsPrefix && (strings.HasSuffix(param, "=") || imageParameterValueRegex.MatchString(value))
+	})
+}
+
 // findNextImage returns the start and end index of the next "[[...:" at or behind the given index or nil.
 func findNextImage(content string, index int) []int {
 	location := internalLinkStartRegex.FindStringIndex(content[index:])
diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 8d5e4a9..797d7ab 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -44,6 +44,7 @@ var (
 	galleryStartRegex          = regexp.MustCompile(`(?i)^<gallery.*?>`)
 	imagemapStartRegex         = regexp.MustCompile(`(?i)^<imagemap.*?>`)
 	imageSizeParameterRegex    = regexp.MustCompile(`^\s*\d*\s*(x\s*\d*\s*)*px$`)
+	imageParameterValueRegex   = regexp.MustCompile(`^\s*(=(?s:.*)|\s[\d.,]+)?$`)
 	hasNonInlineParameterRegex = regexp.MustCompile(`(?i)^\s*(` + strings.Join(imageNonInlineParameters, "|") + `)(atur|nail)?\s*(=.*)?$`)
 )
 
-- 
2.43.0


From 3ebb0e05ed7d330e08322172f15dfdbed71c819d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:37 +0000
Subject: [PATCH 73/89] fix: Take the whole file name without extension as
 title of standalone articles

---
 src/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.go b/src/main.go
index b0cfaa4..fca71ce 100644
--- a/src/main.go
+++ b/src/main.go
@@ -265,7 +265,7 @@ func generateStandaloneEbook(inputFile string, outputFile string) {
 	sigolo.FatalCheck(err)
 
 	_, inputFileName := path.Split(inputFile)
-	title := strings.Split(inputFileName, ".")[0]
+	title := strings.TrimSuffix(inputFileName, path.Ext(inputFileName))
 
 	outputFile = ensurePathsAndClearTempDir(outputFile)
 
-- 
2.43.0


From 0d0483d92c98541fbc10871ee7194b9150aa70c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:43 +0000
Subject: [PATCH 74/89] fix: Use absolute path of existing HTML files for
 standalone articles

---
 src/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.go b/src/main.go
index fca71ce..9f4a8c8 100644
--- a/src/main.go
+++ b/src/main.go
@@ -297,6 +297,9 @@ func generateStandaloneEbook(inputFile string, outputFile string) {
 		}
 		htmlFilePath, err = htmlGenerator.Generate(article)
 		sigolo.FatalCheck(err)
+	} else {
+		htmlFilePath, err = util.ToAbsolutePath(htmlFilePath)
+		sigolo.FatalCheck(err)
 	}
 
 	sigolo.Infof("Start generating %s file", config.Current.OutputType)
-- 
2.43.0


From 34ba95608486f67402efe7b5235be69151bfa901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:48 +0000
Subject: [PATCH 75/89] fix: Use default output file for projects without
 output file

---
 src/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.go b/src/main.go
index 9f4a8c8..4634339 100644
--- a/src/main.go
+++ b/src/main.go
@@ -243,6 +243,8 @@ func generateProjectEbook(projectFile string, outputFile string) {
 	if outputFile != "" {
 		sigolo.Tracef("Project has no output file set, so I'll use '%s'", outputFile)
 		proj.OutputFile = outputFile
+	} else if proj.OutputFile == "" {
+		proj.OutputFile = defaultEpubOutputFile
 	}
 
 	sigolo.Debug("Turn output file path into absolute path")
-- 
2.43.0


From dda4002f4decdd7083fc2c3695bb70506015f0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:54 +0000
Subject: [PATCH 76/89] fix: Write stats into the given output directory

---
 src/main.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main.go b/src/main.go
index 4634339..fefd157 100644
--- a/src/main.go
+++ b/src/main.go
@@ -488,16 +488,17 @@ func shouldRecreateHtml(htmlFilePath string, forceHtmlRecreate bool) bool {
 // ensurePathsAndClearTempDir ensures that the output folder for the given outputFile exists and clears up any
 // temporary files in the temp files folder that might still exist from previous runs.
 func ensurePathsAndClearTempDir(outputFile string) string {
-	var err error
+	outputFileInfo, err := os.Stat(outputFile)
+	isDirectory := err == nil && outputFileInfo.IsDir()
 
-	if config.Current.OutputType == config.OutputTypeStatsJson && !strings.HasSuffix(outputFile, "json") {
+	if config.Current.OutputType == config.OutputTypeStatsJson && !strings.HasSuffix(outputFile, "json") && !isDirectory {
 		// For stats, the output file is not an EPUB, therefore we change the default file in case it's the default EPUB one.
 		outputFile = defaultStatsJsonOutputFile
 		sigolo.Infof("Notice: Changing output file from default '%s' to '%s'", defaultEpubOutputFile, outputFile)
 		outputFile, err = util.ToAbsolutePath(outputFile)
 		sigolo.FatalCheck(err)
 	}
-	if config.Current.OutputType == config.OutputTypeStatsTxt && !strings.HasSuffix(outputFile, "txt") {
+	if config.Current.OutputType == config.OutputTypeStatsTxt && !strings.HasSuffix(outputFile, "txt") && !isDirectory {
 		// For stats, the output file is not an EPUB, therefore we change the default file in case it's the default EPUB one.
 		outputFile = defaultStatsTxtOutputFile
 		sigolo.Infof("Notice: Changing output file from default '%s' to '%s'", defaultEpubOutputFile, outputFile)
-- 
2.43.0


From e23fb873660d190ff30914d6a22aed8ef7ee77b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:06 +0000
Subject: [PATCH 77/89] fix: close the response bodies of failed and repeated
 requests

---
 src/http/http.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/http/http.go b/src/http/http.go
index 3f33ff7..fa7ef14 100644
--- a/src/http/http.go
+++ b/src/http/http.go
@@ -143,6 +143,8 @@ func (d *DefaultHttpService) doRequest(url string, request *http.Request) (*http
 		sigolo.Tracef("Response: %#v", response)
 
 		if response.StatusCode == http.StatusTooManyRequests {
+			closeBody(response)
+
 			// 429 (too many requests): wait a bit and retry
 			var waitTime int
 			waitTime, err = strconv.Atoi(response.Header.Get(HeaderRetryAfter))
@@ -162,11 +164,13 @@ func (d *DefaultHttpService) doRequest(url string, request *http.Request) (*http
 			}
 			continue
 		} else if response.StatusCode != http.StatusOK {
+			closeBody(response)
 			return nil, errors.Errorf("%s request to url %s failed with status code %d", request.Method, url, response.StatusCode)
 		}
 
 		responseErrorHeader := response.Header.Get(HeaderMediawikiApiError)
 		if responseErrorHeader != "" {
+			closeBody(response)
 			return nil, errors.Errorf("%s request to url %s failed with error header '%s' value '%s'", request.Method, url, HeaderMediawikiApiError, responseErrorHeader)
 		}
 		break
@@ -174,3 +178,13 @@ func (d *DefaultHttpService) doRequest(url string, request *http.Request) (*http
 
 	return response, nil
 }
+
+// closeBody releases the connection of a response, whose body is not of interest.
+func closeBody(response *http.Response) {
+	if response.Body != nil {
+		err := response.Body.Close()
+		if err != nil {
+			sigolo.Warnf("Unable to close response body: %v", err)
+		}
+	}
+}
-- 
2.43.0


From 62d1a8ed3cd7250b2317811a1c9524aeb551a33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:15 +0000
Subject: [PATCH 78/89] fix: notice write errors while generating EPUB files
 with the internal driver

---
 src/generator/epub.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/generator/epub.go b/src/generator/epub.go
index 0039faf..021216c 100644
--- a/src/generator/epub.go
+++ b/src/generator/epub.go
@@ -1,6 +1,7 @@
 package generator
 
 import (
+	"bytes"
 	"fmt"
 	"net/url"
 	"os"
@@ -78,6 +79,11 @@ func GenerateEpubWithPandoc(sourceFiles []string, outputFile string, metadata co
 }
 
 func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata config.Metadata) error {
+	// The library ignores errors of writing chapters into its temporary files and would create an incomplete EPUB file.
+	err := epub.Use(epub.MemoryFS)
+	if err != nil {
+		return errors.Wrap(err, "Error preparing EPUB library")
+	}
 
 	epubObj, err := epub.NewEpub("My title")
 	if err != nil {
@@ -148,7 +154,14 @@ func GenerateEpubWithGoLibrary(sourceFiles []string, outputFile string, metadata
 		}
 	}
 
-	err = epubObj.Write(outputFile)
+	// The output file is not touched until the whole EPUB has been generated
+	epubBuffer := &bytes.Buffer{}
+	_, err = epubObj.WriteTo(epubBuffer)
+	if err != nil {
+		return errors.Wrap(err, fmt.Sprintf("Error generating content of EPUB file %s", outputFile))
+	}
+
+	err = os.WriteFile(outputFile, epubBuffer.Bytes(), 0666)
 	if err != nil {
 		return errors.Wrap(err, fmt.Sprintf("Error generating EPUB file %s", outputFile))
 	}
-- 
2.43.0


From 6149eaf86383d636b2e394a9caf0a7d0047e4ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:23 +0000
Subject: [PATCH 79/89] fix: keep leading exclamation mark of table data cells

---
 src/parser/table.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/table.go b/src/parser/table.go
index 5522b7d..049177e 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -197,8 +197,11 @@ func (t *Tokenizer) tokenizeTableRow(lines []string, i int) (TableRowToken, int)
 		// The first line of a cell determines whether it's a heading, further text lines might follow.
 		isHeading := strings.HasPrefix(line, "!")
 
-		line = strings.TrimPrefix(line, "|")
-		line = strings.TrimPrefix(line, "!")
+		if isHeading {
+			line = strings.TrimPrefix(line, "!")
+		} else {
+			line = strings.TrimPrefix(line, "|")
+		}
 		line = strings.TrimSpace(line)
 
 		// Collect all normal text rows until the next row or column starts.
-- 
2.43.0


From 87ecf1064d4272a3b67c432eeff581f0e2b5de80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:37 +0000
Subject: [PATCH 80/89] fix: Lock image independent of its file prefix

---
 src/wikipedia/wikipedia.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index 1fb1c5c..54bb377 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -139,7 +139,9 @@ func (w *DefaultWikipediaService) lockImage(image string) func() {
 }
 
 func (w *DefaultWikipediaService) downloadImageUsingAllSources(image string) error {
-	defer w.lockImage(image)()
+	// The same image might be used with different prefixes (e.g. "File:foo.jpg" and "Image:foo.jpg").
+	_, imageName, _ := strings.Cut(image, ":")
+	defer w.lockImage("File:" + imageName)()
 
 	var downloadErr error
 
-- 
2.43.0


From 701a0c463905c8c958894d5d10b72e37c2a47d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:09 +0000
Subject: [PATCH 81/89] fix: Do not render same formula concurrently

---
 src/wikipedia/wikipedia.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/wikipedia/wikipedia.go b/src/wikipedia/wikipedia.go
index 54bb377..e0a43ee 100644
--- a/src/wikipedia/wikipedia.go
+++ b/src/wikipedia/wikipedia.go
@@ -303,15 +303,18 @@ func (w *DefaultWikipediaService) RenderMath(mathString string) (string, string,
 	sigolo.Debugf("Render math %s", util.TruncString(mathString))
 	sigolo.Tracef("  Complete math text: %s", mathString)
 
-	defer w.lockImage(mathString)()
-
 	mathApiUrl := w.wikipediaMathRestApi
 
+	unlockMathString := w.lockImage(mathString)
 	mathSvgFilename, err := w.getMathResource(mathString)
+	unlockMathString()
 	if err != nil {
 		return "", "", err
 	}
 
+	// Different math strings (e.g. "a+b" and "a + b") might have the same rendering.
+	defer w.lockImage(mathSvgFilename)()
+
 	imageSvgUrl := mathApiUrl + "/render/svg/" + mathSvgFilename
 	cachedSvgFile, freshlyDownloaded, err := w.httpService.DownloadAndCache(imageSvgUrl, cache.ImageCacheDirName, mathSvgFilename+util.FileEndingSvg)
 	if err != nil {
-- 
2.43.0


From 88d91937fc50d2f05cbc72de29a12201a3f9cdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:18 +0000
Subject: [PATCH 82/89] fix: Consider table cell attributes in any letter case

---
 src/parser/pattern.go | 4 ++--
 src/parser/table.go   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 797d7ab..e1a8314 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -51,8 +51,8 @@ var (
 // Tables
 var (
 	tableStartRegex         = regexp.MustCompile(`^(:*)(\{\|.*)`)
-	tableRowAndColspanRegex = regexp.MustCompile(`(colspan|rowspan)\s*=\s*(?:"\s*\d+\s*"|'\s*\d+\s*'|\d+)`)
-	tableTextAlignRegex     = regexp.MustCompile(`text-align\s*:[^;"']+;?`)
+	tableRowAndColspanRegex = regexp.MustCompile(`(?i)(colspan|rowspan)\s*=\s*(?:"\s*\d+\s*"|'\s*\d+\s*'|\d+)`)
+	tableTextAlignRegex     = regexp.MustCompile(`(?i)text-align\s*:[^;"']+;?`)
 )
 
 // References
diff --git a/src/parser/table.go b/src/parser/table.go
index 049177e..6cb7d79 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -288,7 +288,7 @@ func (t *Tokenizer) tokenizeTableEntry(content string) (string, TableColAttribut
 	rowAndColspanMatch := tableRowAndColspanRegex.FindAllStringSubmatch(attributeString, -1)
 	if len(rowAndColspanMatch) > 0 {
 		for _, match := range rowAndColspanMatch {
-			relevantTags = append(relevantTags, match[0])
+			relevantTags = append(relevantTags, strings.ToLower(match[0]))
 		}
 	}
 
-- 
2.43.0


From c55052b8f9a2bf6c0eaa25a26b5bcf50a2182b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:21 +0000
Subject: [PATCH 83/89] fix: Consider math tags in any letter case

---
 src/parser/mask.go    | 2 +-
 src/parser/pattern.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/mask.go b/src/parser/mask.go
index 40e65b5..f708a3b 100644
--- a/src/parser/mask.go
+++ b/src/parser/mask.go
@@ -10,7 +10,7 @@ const maskTemplate = "$$MASKED_CONTENT_%d$$"
 
 // literalAreaRegex matches all areas with literal text, which must neither be cleaned nor evaluated. Comments are matched
 // as well, because tags within comments are no such areas.
-var literalAreaRegex = regexp.MustCompile(`(?s)<!--.*?-->|(?i:<nowiki>).*?(?i:</nowiki>)|<math[^\n]*?>.*?</math>`)
+var literalAreaRegex = regexp.MustCompile(`(?s)<!--.*?-->|(?i:<nowiki>).*?(?i:</nowiki>)|(?i:<math[^\n]*?>).*?(?i:</math>)`)
 
 // maskLiteralAreas replaces nowiki and math areas by unique masks. This makes sure that their content, which might look
 // like templates, links, comments, etc., is not touched. Use unmaskLiteralAreas to get the original text back.
diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index e1a8314..438e52c 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -65,5 +65,5 @@ var (
 
 // Math
 var (
-	mathRegex = regexp.MustCompile(`<math.*?>((.|\n|\r)*?)</math>`)
+	mathRegex = regexp.MustCompile(`(?i)<math.*?>((.|\n|\r)*?)</math>`)
 )
-- 
2.43.0


From feea5e480a6fa56c33b7d154026eb196deaa9731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:58 +0000
Subject: [PATCH 84/89] fix: Resolve relative pandoc executable of config files

---
 src/config/config.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/config/config.go b/src/config/config.go
index 673ae2c..9baedd1 100644
--- a/src/config/config.go
+++ b/src/config/config.go
@@ -659,6 +659,12 @@ func (c *Configuration) makePathsAbsolute(file string) {
 	c.CoverImage, err = util.ToAbsolutePathWithBasedir(absoluteConfigDir, c.CoverImage)
 	sigolo.FatalCheck(err)
 
+	// The name of an executable, e.g. just "pandoc", must not be converted into a path.
+	if strings.Contains(c.PandocExecutable, "/") {
+		c.PandocExecutable, err = util.ToAbsolutePathWithBasedir(absoluteConfigDir, c.PandocExecutable)
+		sigolo.FatalCheck(err)
+	}
+
 	c.PandocDataDir, err = util.ToAbsolutePathWithBasedir(absoluteConfigDir, c.PandocDataDir)
 	sigolo.FatalCheck(err)
 
-- 
2.43.0


From f4bbb6e8c537846b777553c79e28f7dde005fb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:34 +0000
Subject: [PATCH 85/89] fix: Galleries and image maps whose tags share a line
 with other text

---
 src/parser/image.go   | 32 ++++++++++++++++++++++++++++++--
 src/parser/pattern.go |  2 ++
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/parser/image.go b/src/parser/image.go
index ed2ea6e..c30a9a1 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"fmt"
 	"path/filepath"
+	"regexp"
 	"slices"
 	"strconv"
 	"strings"
@@ -89,8 +90,35 @@ func (t *Tokenizer) escapeImages(content string) string {
 	return strings.Join(segments, "|")
 }
 
+// separateAreas ensures that the areas matched by the given regex (e.g. galleries) and their closing tags start in a new
+// line and that the text behind them starts in a new line as well.
+func separateAreas(content string, areaRegex *regexp.Regexp) string {
+	var result strings.Builder
+	index := 0
+
+	for _, match := range areaRegex.FindAllStringSubmatchIndex(content, -1) {
+		// The first group is the closing tag
+		for _, newLineIndex := range []int{match[0], match[2], match[3]} {
+			result.WriteString(content[index:newLineIndex])
+			index = newLineIndex
+
+			lineStart := strings.LastIndex(content[:index], "\n") + 1
+			lineEnd := len(content)
+			if i := strings.Index(content[index:], "\n"); i != -1 {
+				lineEnd = index + i
+			}
+			if strings.TrimSpace(content[lineStart:index]) != "" && strings.TrimSpace(content[index:lineEnd]) != "" {
+				result.WriteString("\n")
+			}
+		}
+	}
+
+	result.WriteString(content[index:])
+	return result.String()
+}
+
 func (t *Tokenizer) parseGalleries(content string) string {
-	lines := strings.Split(content, "\n")
+	lines := strings.Split(separateAreas(content, galleryRegex), "\n")
 	withinGallery := false
 	var resultLines []string
 
@@ -157,7 +185,7 @@ func (t *Tokenizer) parseGalleries(content string) string {
 }
 
 func (t *Tokenizer) parseImageMaps(content string) string {
-	lines := strings.Split(content, "\n")
+	lines := strings.Split(separateAreas(content, imagemapRegex), "\n")
 
 	withinImageMap := false
 
diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 438e52c..5c15955 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -41,7 +41,9 @@ var (
 
 // Media files
 var (
+	galleryRegex               = regexp.MustCompile(`(?is)<gallery(?:\s[^>]*)?>.*?(</gallery>)`)
 	galleryStartRegex          = regexp.MustCompile(`(?i)^<gallery.*?>`)
+	imagemapRegex              = regexp.MustCompile(`(?is)<imagemap(?:\s[^>]*)?>.*?(</imagemap>)`)
 	imagemapStartRegex         = regexp.MustCompile(`(?i)^<imagemap.*?>`)
 	imageSizeParameterRegex    = regexp.MustCompile(`^\s*\d*\s*(x\s*\d*\s*)*px$`)
 	imageParameterValueRegex   = regexp.MustCompile(`^\s*(=(?s:.*)|\s[\d.,]+)?$`)
-- 
2.43.0


From 62b88e75719a5631bff41b76da19c64bf9dbc964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:44 +0000
Subject: [PATCH 86/89] fix: Names of reference attributes are case-insensitive

---
 src/parser/reference.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/reference.go b/src/parser/reference.go
index 6ee3c2d..34f2bb7 100644
--- a/src/parser/reference.go
+++ b/src/parser/reference.go
@@ -259,7 +259,7 @@ func (t *Tokenizer) getGroupOrDefault(content string) string {
 func (t *Tokenizer) getAttribute(content string, attributeName string) string {
 	// Go through all attributes, so that the content of a quoted value is not mistaken for an attribute.
 	for _, match := range referenceAttributeRegex.FindAllStringSubmatch(content, -1) {
-		if match[1] == attributeName {
+		if util.EqualsIgnoreCase(match[1], attributeName) {
 			// Only one of the groups (double quotes, single quotes, no quotes) contains something
 			return match[2] + match[3] + match[4]
 		}
-- 
2.43.0


From ef5f49f640ce47796fa01b9e13960c71bb0cf66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:47 +0000
Subject: [PATCH 87/89] fix: Colons within HTML tags do not separate
 description list heads from items

---
 src/parser/list.go    | 23 +++++++++++++++++++----
 src/parser/pattern.go |  1 +
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/parser/list.go b/src/parser/list.go
index a9b2fd3..d84f766 100644
--- a/src/parser/list.go
+++ b/src/parser/list.go
@@ -170,18 +170,18 @@ func (t *Tokenizer) tokenizeList(lines []string, startLineIndex int, listPrefix
 
 			if linePrefix == ";" {
 				// Description list head -> also check for description list item in the same line
-				lineParts := strings.SplitN(line[1:], ":", 2)
+				head, item, hasItem := cutAtDescription(line[1:])
 
-				headPart := t.tokenizeContent(t, lineParts[0])
+				headPart := t.tokenizeContent(t, head)
 				headToken := ListItemToken{
 					Type:    DESCRIPTION_HEAD,
 					Content: headPart,
 				}
 				allListItemTokens = append(allListItemTokens, headToken)
 
-				if len(lineParts) > 1 {
+				if hasItem {
 					// There's a description list item after the heading -> Create separate token for that
-					itemPart := t.tokenizeContent(t, lineParts[1])
+					itemPart := t.tokenizeContent(t, item)
 					itemToken := ListItemToken{
 						Type:    DESCRIPTION_ITEM,
 						Content: itemPart,
@@ -230,6 +230,21 @@ func (t *Tokenizer) tokenizeList(lines []string, startLineIndex int, listPrefix
 	return listToken, listTokenKey, startLineIndex + len(listLines)
 }
 
+// cutAtDescription splits the text of a description list head at the first colon, which separates the head from the item
+// within the same line. Colons within HTML tags (e.g. in style attributes) are no separators.
+func cutAtDescription(text string) (string, string, bool) {
+	tags := htmlTagRegex.FindAllStringIndex(text, -1)
+	for i := 0; i < len(text); i++ {
+		if len(tags) > 0 && i == tags[0][0] {
+			i = tags[0][1] - 1
+			tags = tags[1:]
+		} else if text[i] == ':' {
+			return text[:i], text[i+1:], true
+		}
+	}
+	return text, "", false
+}
+
 func belongsToListPrefix(line string, itemPrefix string) bool {
 	if len(line) == 0 {
 		return false
diff --git a/src/parser/pattern.go b/src/parser/pattern.go
index 5c15955..d7c6273 100644
--- a/src/parser/pattern.go
+++ b/src/parser/pattern.go
@@ -32,6 +32,7 @@ var (
 var (
 	templateNameRegex = regexp.MustCompile(`{{\s*([^\n|}]+)`)
 	unwantedHtmlRegex = regexp.MustCompile(`</?(div|span)[^>]*>`)
+	htmlTagRegex      = regexp.MustCompile(`</?[a-zA-Z][^<>]*>`)
 )
 
 // Links
-- 
2.43.0


From 11a63d2d60a58f13257248ea0702647b81fbeed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:51 +0000
Subject: [PATCH 88/89] fix: Links to sections of the same article lost their
 text

---
 src/parser/link.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/link.go b/src/parser/link.go
index d3368b2..c4bb06e 100644
--- a/src/parser/link.go
+++ b/src/parser/link.go
@@ -101,6 +101,9 @@ func (t *Tokenizer) parseLink(content string, openingBrackets string, closingBra
 				// link text is the part behind the last ":".
 				linkSegments := strings.SplitN(linkTarget, ":", -1)
 				linkText = linkSegments[len(linkSegments)-1]
+			} else if linkTarget == "" && removeSectionReference {
+				// Link to a section of the same article, e.g. [[#Some section]], which has no other text.
+				linkText = strings.TrimSpace(wikitextElements[0])
 			} else {
 				// A normal link but without the delimiter. Therefore, the link text is the whole link content, e.g. the
 				// name of the article.
-- 
2.43.0


From aa9aa4a85530bf2b20d2ca70f298a783fef7d0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:34 +0000
Subject: [PATCH 89/89] fix: List characters which are not at the beginning of
 a line are normal text

---
 src/parser/heading.go   |  2 +-
 src/parser/image.go     |  2 +-
 src/parser/link.go      |  6 +++---
 src/parser/list.go      | 19 +++++++++++++++----
 src/parser/reference.go |  2 +-
 src/parser/table.go     |  4 ++--
 6 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/parser/heading.go b/src/parser/heading.go
index 3d5f2d6..e143aa9 100644
--- a/src/parser/heading.go
+++ b/src/parser/heading.go
@@ -27,7 +27,7 @@ func (t *Tokenizer) parseHeadings(content string) string {
 
 				token := t.getToken(TOKEN_HEADING)
 				t.setRawToken(token, HeadingToken{
-					Content: t.tokenizeContent(t, headingText),
+					Content: t.tokenizeContent(t, escapeListStart(headingText)),
 					Depth:   depth,
 				})
 				lines[i] = token
diff --git a/src/parser/image.go b/src/parser/image.go
index c30a9a1..dd14efa 100644
--- a/src/parser/image.go
+++ b/src/parser/image.go
@@ -319,7 +319,7 @@ func (t *Tokenizer) parseImages(content string) string {
 					}
 				} else if i == len(filteredOptions)-1 && tokenType == TOKEN_IMAGE {
 					// Last remaining option is the caption. We ignore captions on inline images.
-					captionToken.Content = t.tokenizeContent(t, option)
+					captionToken.Content = t.tokenizeContent(t, escapeListStart(option))
 				}
 			}
 
diff --git a/src/parser/link.go b/src/parser/link.go
index c4bb06e..c2ad200 100644
--- a/src/parser/link.go
+++ b/src/parser/link.go
@@ -120,7 +120,7 @@ func (t *Tokenizer) parseLink(content string, openingBrackets string, closingBra
 		if linkType == LINK_TYPE_INTERNAL {
 			token = InternalLinkToken{
 				ArticleName: linkTarget,
-				LinkText:    t.tokenizeContent(t, linkText),
+				LinkText:    t.tokenizeContent(t, escapeListStart(linkText)),
 			}
 			linkTokenKey = TOKEN_INTERNAL_LINK
 		} else if linkType == LINK_TYPE_EXTERNAL {
@@ -129,12 +129,12 @@ func (t *Tokenizer) parseLink(content string, openingBrackets string, closingBra
 			if util.HasAnyPrefix(linkTarget, "http://", "https://") {
 				token = ExternalLinkToken{
 					URL:      linkTarget,
-					LinkText: t.tokenizeContent(t, linkText),
+					LinkText: t.tokenizeContent(t, escapeListStart(linkText)),
 				}
 				linkTokenKey = TOKEN_EXTERNAL_LINK
 			} else if strings.Contains(linkTarget, "://") {
 				token = StringToken{
-					String: t.tokenizeContent(t, linkText),
+					String: t.tokenizeContent(t, escapeListStart(linkText)),
 				}
 				linkTokenKey = TOKEN_STRING
 			}
diff --git a/src/parser/list.go b/src/parser/list.go
index d84f766..c88f85c 100644
--- a/src/parser/list.go
+++ b/src/parser/list.go
@@ -172,7 +172,7 @@ func (t *Tokenizer) tokenizeList(lines []string, startLineIndex int, listPrefix
 				// Description list head -> also check for description list item in the same line
 				head, item, hasItem := cutAtDescription(line[1:])
 
-				headPart := t.tokenizeContent(t, head)
+				headPart := t.tokenizeContent(t, escapeListStart(head))
 				headToken := ListItemToken{
 					Type:    DESCRIPTION_HEAD,
 					Content: headPart,
@@ -181,7 +181,7 @@ func (t *Tokenizer) tokenizeList(lines []string, startLineIndex int, listPrefix
 
 				if hasItem {
 					// There's a description list item after the heading -> Create separate token for that
-					itemPart := t.tokenizeContent(t, item)
+					itemPart := t.tokenizeContent(t, escapeListStart(item))
 					itemToken := ListItemToken{
 						Type:    DESCRIPTION_ITEM,
 						Content: itemPart,
@@ -192,12 +192,12 @@ func (t *Tokenizer) tokenizeList(lines []string, startLineIndex int, listPrefix
 				// Description list item
 				itemToken := ListItemToken{
 					Type:    DESCRIPTION_ITEM,
-					Content: t.tokenizeContent(t, line[1:]),
+					Content: t.tokenizeContent(t, escapeListStart(line[1:])),
 				}
 				allListItemTokens = append(allListItemTokens, itemToken)
 			} else {
 				// Normal list item
-				tokenizedLine := t.tokenizeContent(t, line[1:])
+				tokenizedLine := t.tokenizeContent(t, escapeListStart(line[1:]))
 				lineToken := ListItemToken{
 					Type:    NORMAL_ITEM,
 					Content: tokenizedLine,
@@ -264,6 +264,17 @@ func isListStartingCharacter(c uint8) bool {
 	return c == '*' || c == '#' || c == ';' || c == ':'
 }
 
+// escapeListStart escapes the first character of the given text when it looks like the start of a list. Therefore, this
+// must be used for texts (e.g. of a link or table cell) that don't start at the beginning of a line, where the character
+// is just normal text.
+func escapeListStart(text string) string {
+	trimmedText := strings.TrimLeft(text, " \t")
+	if trimmedText == "" || !isListStartingCharacter(trimmedText[0]) {
+		return text
+	}
+	return fmt.Sprintf("%s&#%d;%s", text[:len(text)-len(trimmedText)], trimmedText[0], trimmedText[1:])
+}
+
 func removeListPrefix(line string, itemPrefix string) string {
 	if len(line) == 0 {
 		return line
diff --git a/src/parser/reference.go b/src/parser/reference.go
index 34f2bb7..25a6f67 100644
--- a/src/parser/reference.go
+++ b/src/parser/reference.go
@@ -221,7 +221,7 @@ func (t *Tokenizer) parseReferenceDefinition(content string, i int, startEndInde
 		}
 	}
 
-	refNumberToContent[refNumber] = t.tokenizeContent(t, content[startEndIndex+1:refEndIndex])
+	refNumberToContent[refNumber] = t.tokenizeContent(t, escapeListStart(content[startEndIndex+1:refEndIndex]))
 
 	if !cursorWithinReferencePlaceholder {
 		tokenKey := t.getToken(TOKEN_REF_USAGE)
diff --git a/src/parser/table.go b/src/parser/table.go
index 6cb7d79..fa3edab 100644
--- a/src/parser/table.go
+++ b/src/parser/table.go
@@ -277,11 +277,11 @@ func (t *Tokenizer) tokenizeTableEntry(content string) (string, TableColAttribut
 	firstLine, _, _ := strings.Cut(content, "\n")
 	attributes, _, hasAttributes := strings.Cut(firstLine, "|")
 	if !hasAttributes {
-		return t.tokenizeContent(t, content), attributeToken
+		return t.tokenizeContent(t, escapeListStart(content)), attributeToken
 	}
 
 	attributeString := strings.TrimSpace(attributes)
-	entryText := t.tokenizeContent(t, content[len(attributes)+1:])
+	entryText := t.tokenizeContent(t, escapeListStart(content[len(attributes)+1:]))
 
 	var relevantTags []string
 
-- 
2.43.0

