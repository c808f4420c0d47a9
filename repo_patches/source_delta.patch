From 6800cf5fe45fb3095c13c24d2522c094e272832d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:45 +0000
Subject: [PATCH 01/11] fix: restore typographic characters using the length of
 the original word

voikkoSuggestUcs4 passed the length of the normalised word together with the
original word to voikko_cset_reformat. Ligatures make the normalised word
longer than the original, so the original was read beyond its end.
---
 libvoikko/src/spellchecker/suggestions.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libvoikko/src/spellchecker/suggestions.cpp b/libvoikko/src/spellchecker/suggestions.cpp
index 5e93282..9fa598e 100644
--- a/libvoikko/src/spellchecker/suggestions.cpp
+++ b/libvoikko/src/spellchecker/suggestions.cpp
@@ -87,7 +87,8 @@ VOIKKOEXPORT void voikkoFreeCstrArray(char ** suggest_result) {
 VOIKKOEXPORT wchar_t ** voikkoSuggestUcs4(VoikkoHandle * options, const wchar_t * word) {
 	bool add_dots = false;
 	if (word == 0) return 0;
-	size_t wlen = wcslen(word);
+	const size_t origLen = wcslen(word);
+	size_t wlen = origLen;
 	if (wlen <= 1 || wlen > LIBVOIKKO_MAX_WORD_CHARS) return 0;
 	
 	wchar_t * nword = voikko_normalise(word, wlen);
@@ -146,7 +147,7 @@ VOIKKOEXPORT wchar_t ** voikkoSuggestUcs4(VoikkoHandle * options, const wchar_t
 	/* Undo character set normalisation */
 	for (size_t i = 0; suggestions[i] != 0;) {
 		suglen = wcslen(suggestions[i]);
-		voikko_cset_reformat(word, wlen, &(suggestions[i]), suglen);
+		voikko_cset_reformat(word, origLen, &(suggestions[i]), suglen);
 		i++;
 	}
 
-- 
2.43.0


From e97bdd7a7861186f04051b28086c8925d1393d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:18 +0000
Subject: [PATCH 02/11] fix: find long email addresses in UTF-8 text like in
 wide character text

voikkoNextTokenCstr converts only the beginning of the text. An email address
whose '@' or '.' was beyond the converted part was split at the first
punctuation character, unlike with voikkoNextTokenUcs4.
---
 libvoikko/src/tokenizer/interface.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/libvoikko/src/tokenizer/interface.cpp b/libvoikko/src/tokenizer/interface.cpp
index c5ae741..e1f8625 100644
--- a/libvoikko/src/tokenizer/interface.cpp
+++ b/libvoikko/src/tokenizer/interface.cpp
@@ -30,6 +30,7 @@
 #include "setup/setup.hpp"
 #include "utils/StringUtils.hpp"
 #include "tokenizer/Tokenizer.hpp"
+#include "character/charset.hpp"
 #include <cwchar>
 
 namespace libvoikko { namespace tokenizer {
@@ -40,13 +41,27 @@ VOIKKOEXPORT enum voikko_token_type voikkoNextTokenUcs4(VoikkoHandle * options,
 }
 
 static enum voikko_token_type doVoikkoNextTokenCstr(VoikkoHandle * options, const char * text, size_t textlen,
-                                                           size_t * tokenlen, size_t maxChars) {
+                                                           size_t * tokenlen, size_t maxChars, bool * isFinal) {
+	*isFinal = true;
 	wchar_t * text_ucs4 = utils::StringUtils::ucs4FromUtf8(text, textlen, maxChars);
 	if (text_ucs4 == 0) {
 		return TOKEN_NONE;
 	}
+	const size_t convertedLen = wcslen(text_ucs4);
 	voikko_token_type result =
-		voikkoNextTokenUcs4(options, text_ucs4, wcslen(text_ucs4), tokenlen);
+		voikkoNextTokenUcs4(options, text_ucs4, convertedLen, tokenlen);
+	if (result != TOKEN_NONE && convertedLen == maxChars) {
+		*isFinal = *tokenlen + 5 < maxChars;
+		if (*isFinal && (result == TOKEN_WORD || result == TOKEN_PUNCTUATION)) {
+			// This could still be the start of an email address that continues
+			// up to the next white space.
+			size_t i = *tokenlen;
+			while (i < convertedLen && get_char_type(text_ucs4[i]) != CHAR_WHITESPACE) {
+				i++;
+			}
+			*isFinal = i < convertedLen;
+		}
+	}
 	delete[] text_ucs4;
 	return result;
 }
@@ -60,9 +75,10 @@ VOIKKOEXPORT enum voikko_token_type voikkoNextTokenCstr(VoikkoHandle * options,
 	size_t maxChars = 50;
 	*tokenlen = 0;
 	voikko_token_type result;
+	bool isFinal;
 	while (true) {
-		result = doVoikkoNextTokenCstr(options, text, textlen, tokenlen, maxChars);
-		if (result == TOKEN_NONE || *tokenlen + 5 < maxChars) {
+		result = doVoikkoNextTokenCstr(options, text, textlen, tokenlen, maxChars, &isFinal);
+		if (isFinal) {
 			break;
 		}
 		maxChars *= 2;
-- 
2.43.0


From 3d833e791c853cc958ef687838f442ac3b6b19e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:43 +0000
Subject: [PATCH 03/11] fix: no suggestions for words that normalise to a
 single character

---
 libvoikko/src/spellchecker/suggestions.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libvoikko/src/spellchecker/suggestions.cpp b/libvoikko/src/spellchecker/suggestions.cpp
index 9fa598e..3765d49 100644
--- a/libvoikko/src/spellchecker/suggestions.cpp
+++ b/libvoikko/src/spellchecker/suggestions.cpp
@@ -96,6 +96,11 @@ VOIKKOEXPORT wchar_t ** voikkoSuggestUcs4(VoikkoHandle * options, const wchar_t
 		return 0;
 	}
 	wlen = wcslen(nword);
+	if (wlen <= 1) {
+		// base character and a combining mark
+		delete[] nword;
+		return 0;
+	}
 	
 	if (options->ignore_dot) {
 		if (wlen == 2) {
-- 
2.43.0


From 65b7dac32ece911026e665c55d2a0bcdb5888697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:15 +0000
Subject: [PATCH 04/11] fix: keep speller cache index in range for characters
 outside Unicode

---
 libvoikko/src/spellchecker/SpellerCache.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libvoikko/src/spellchecker/SpellerCache.cpp b/libvoikko/src/spellchecker/SpellerCache.cpp
index e21119c..ce50d59 100644
--- a/libvoikko/src/spellchecker/SpellerCache.cpp
+++ b/libvoikko/src/spellchecker/SpellerCache.cpp
@@ -58,11 +58,11 @@ static const int VOIKKO_META_OFFSETS[]  =  {0,   0, 1*16, 1*48, 1*112, 1*240,  1
  * @return integer from range [0, 2^order - 1]
  */
 static int voikko_hash(const wchar_t * word, size_t len, int order) {
-	int hash = 0;
+	unsigned int hash = 0;
 	for (size_t counter = 0; counter < len; counter++) {
-		hash = (hash * 37 + word[counter]) % (1 << order);
+		hash = (hash * 37 + word[counter]) % (1u << order);
 	}
-	return hash;
+	return static_cast<int>(hash);
 }
 
 SpellerCache::SpellerCache(int sizeParam) : sizeParam(sizeParam) {
-- 
2.43.0


From 5d1f0018bf875c47fc68faf181fc57b2131bed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:15 +0000
Subject: [PATCH 05/11] fix: discard cached spelling results when hyphen
 options change

---
 libvoikko/src/setup/setup.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/libvoikko/src/setup/setup.cpp b/libvoikko/src/setup/setup.cpp
index b7c6ff1..d0e178f 100644
--- a/libvoikko/src/setup/setup.cpp
+++ b/libvoikko/src/setup/setup.cpp
@@ -63,6 +63,20 @@ static int setGrammarOption(VoikkoHandle * handle, int value, int * option) {
 		return 1;
 }
 
+static int setHyphenOption(VoikkoHandle * handle, int value, int * option) {
+		int newValue = (value ? 1 : 0);
+		if (*option != newValue) {
+			*option = newValue;
+			if (handle->spellerCache) {
+				// cached results depend on the value of this option
+				int sizeParam = handle->spellerCache->getSizeParam();
+				delete handle->spellerCache;
+				handle->spellerCache = new spellchecker::SpellerCache(sizeParam);
+			}
+		}
+		return 1;
+}
+
 VOIKKOEXPORT int voikkoSetBooleanOption(VoikkoHandle * options, int option, int value) {
 	switch (option) {
 		case VOIKKO_OPT_IGNORE_DOT:
@@ -109,11 +123,11 @@ VOIKKOEXPORT int voikkoSetBooleanOption(VoikkoHandle * options, int option, int
 			options->ignore_nonwords = (value ? 1 : 0);
 			return 1;
 		case VOIKKO_OPT_ACCEPT_EXTRA_HYPHENS:
-			options->accept_extra_hyphens = (value ? 1 : 0);
-			return 1;
+			return setHyphenOption(options, value,
+			       &(options->accept_extra_hyphens));
 		case VOIKKO_OPT_ACCEPT_MISSING_HYPHENS:
-			options->accept_missing_hyphens = (value ? 1 : 0);
-			return 1;
+			return setHyphenOption(options, value,
+			       &(options->accept_missing_hyphens));
 		case VOIKKO_OPT_ACCEPT_TITLES_IN_GC:
 			return setGrammarOption(options, value,
 			       &(options->accept_titles_in_gc));
-- 
2.43.0


From 15d311dff54a8a5ad55360d833c2a97518e2efc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:06 +0000
Subject: [PATCH 06/11] fix: compare grammar checker cache with the given
 number of characters

The text passed to voikkoNextGrammarErrorUcs4 is delimited by its length and
need not be null terminated. Comparing it with wcscmp read past its end, or
analysed the text but never reported its errors.
---
 libvoikko/src/grammar/GcCache.cpp        | 2 ++
 libvoikko/src/grammar/GcCache.hpp        | 3 +++
 libvoikko/src/grammar/GrammarChecker.cpp | 6 ++++--
 libvoikko/src/grammar/GrammarChecker.hpp | 2 +-
 libvoikko/src/grammar/interface.cpp      | 4 ++--
 5 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/libvoikko/src/grammar/GcCache.cpp b/libvoikko/src/grammar/GcCache.cpp
index afd4ebd..f6e0133 100644
--- a/libvoikko/src/grammar/GcCache.cpp
+++ b/libvoikko/src/grammar/GcCache.cpp
@@ -33,12 +33,14 @@ namespace libvoikko { namespace grammar {
 
 GcCache::GcCache() :
 	paragraph(0),
+	paragraphLength(0),
 	firstError(0) {
 }
 
 void GcCache::clear() {
 	delete[] paragraph;
 	paragraph = 0;
+	paragraphLength = 0;
 	CacheEntry * entry = firstError;
 	while (entry) {
 		CacheEntry * next = entry->nextError;
diff --git a/libvoikko/src/grammar/GcCache.hpp b/libvoikko/src/grammar/GcCache.hpp
index 4272c3d..c16647d 100644
--- a/libvoikko/src/grammar/GcCache.hpp
+++ b/libvoikko/src/grammar/GcCache.hpp
@@ -50,6 +50,9 @@ class GcCache {
 	/** Null terminated string containing the paragraph text. */
 	wchar_t * paragraph;
 	
+	/** Number of characters in the paragraph text, excluding the terminating null. */
+	size_t paragraphLength;
+	
 	/** First error in linked list. */
 	grammar::CacheEntry * firstError;
 };
diff --git a/libvoikko/src/grammar/GrammarChecker.cpp b/libvoikko/src/grammar/GrammarChecker.cpp
index 2895669..48eccfd 100644
--- a/libvoikko/src/grammar/GrammarChecker.cpp
+++ b/libvoikko/src/grammar/GrammarChecker.cpp
@@ -39,11 +39,12 @@ GrammarChecker::~GrammarChecker() {
 	cache.clear();
 }
 
-const VoikkoGrammarError * GrammarChecker::errorFromCache(const wchar_t * text, size_t startpos, int skiperrors) {
+const VoikkoGrammarError * GrammarChecker::errorFromCache(const wchar_t * text, size_t textlen, size_t startpos, int skiperrors) {
 	if (!cache.paragraph) {
 		return 0;
 	}
-	if (wcscmp(cache.paragraph, text) != 0) {
+	if (cache.paragraphLength != textlen ||
+	    wmemcmp(cache.paragraph, text, textlen) != 0) {
 		return 0;
 	}
 	CacheEntry * e = cache.firstError;
@@ -67,6 +68,7 @@ void GrammarChecker::paragraphToCache(const wchar_t * text, size_t textlen) {
 	}
 	memcpy(cache.paragraph, text, textlen * sizeof(wchar_t));
 	cache.paragraph[textlen] = L'\0';
+	cache.paragraphLength = textlen;
 	Paragraph * para = paragraphAnalyser->analyseParagraph(text, textlen);
 	if (!para) {
 		return;
diff --git a/libvoikko/src/grammar/GrammarChecker.hpp b/libvoikko/src/grammar/GrammarChecker.hpp
index 27247a6..5a79cbe 100644
--- a/libvoikko/src/grammar/GrammarChecker.hpp
+++ b/libvoikko/src/grammar/GrammarChecker.hpp
@@ -44,7 +44,7 @@ class GrammarChecker {
 		 * Returns a pointer to a cached grammar error or null, if there are no cached
 		 * results for given paragraph.
 		 */
-		const VoikkoGrammarError * errorFromCache(const wchar_t * text, size_t startpos, int skiperrors);
+		const VoikkoGrammarError * errorFromCache(const wchar_t * text, size_t textlen, size_t startpos, int skiperrors);
 		
 		/**
 		 * Performs grammar checking on the entire paragraph and stores the results
diff --git a/libvoikko/src/grammar/interface.cpp b/libvoikko/src/grammar/interface.cpp
index 3250a77..3f5bea1 100644
--- a/libvoikko/src/grammar/interface.cpp
+++ b/libvoikko/src/grammar/interface.cpp
@@ -43,10 +43,10 @@ VOIKKOEXPORT VoikkoGrammarError * voikkoNextGrammarErrorUcs4(VoikkoHandle * opti
 		return 0;
 	}
 	const VoikkoGrammarError * c_error =
-	    options->grammarChecker->errorFromCache(text_ucs4, startpos, skiperrors);
+	    options->grammarChecker->errorFromCache(text_ucs4, wtextlen, startpos, skiperrors);
 	if (!c_error) {
 		options->grammarChecker->paragraphToCache(text_ucs4, wtextlen);
-		c_error = options->grammarChecker->errorFromCache(text_ucs4, startpos, skiperrors);
+		c_error = options->grammarChecker->errorFromCache(text_ucs4, wtextlen, startpos, skiperrors);
 	}
 	
 	if (!c_error || c_error->getErrorCode() == 0) {
-- 
2.43.0


From 1730e0b91b923dbda475ef0d089af52fd845c595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:53 +0000
Subject: [PATCH 07/11] fix: terminate suggestion generator before deleting it

Generators release their transducers and buffers in terminate(), so
switching VOIKKO_OPT_OCR_SUGGESTIONS leaked them.
---
 libvoikko/src/setup/setup.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libvoikko/src/setup/setup.cpp b/libvoikko/src/setup/setup.cpp
index d0e178f..c2b8ce1 100644
--- a/libvoikko/src/setup/setup.cpp
+++ b/libvoikko/src/setup/setup.cpp
@@ -114,6 +114,7 @@ VOIKKOEXPORT int voikkoSetBooleanOption(VoikkoHandle * options, int option, int
 			spellchecker::suggestion::SuggestionType type = (value ? 
 				spellchecker::suggestion::SUGGESTION_TYPE_OCR :
 				spellchecker::suggestion::SUGGESTION_TYPE_STD);
+			options->suggestionGenerator->terminate();
 			delete options->suggestionGenerator;
 			options->suggestionGenerator =
 				spellchecker::suggestion::SuggestionGeneratorFactory::getSuggestionGenerator(options, type);
@@ -224,8 +225,11 @@ VOIKKOEXPORT VoikkoHandle * voikkoInit(const char ** error, const char * langcod
 			delete options->hyphenator;
 			options->hyphenator = 0;
 		}
-		delete options->suggestionGenerator;
-		options->suggestionGenerator = 0;
+		if (options->suggestionGenerator) {
+			options->suggestionGenerator->terminate();
+			delete options->suggestionGenerator;
+			options->suggestionGenerator = 0;
+		}
 		if (options->speller) {
 			options->speller->terminate();
 			delete options->speller;
-- 
2.43.0


From 30f0af8b6f1a56af1be01f59ef8168ff47552ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:12 +0000
Subject: [PATCH 08/11] fix: start every lookup of an unweighted transducer
 with neutral flags

Flag values set by a lookup that was abandoned before exhausting all paths
were still in effect for the next word.
---
 libvoikko/src/fst/UnweightedTransducer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libvoikko/src/fst/UnweightedTransducer.cpp b/libvoikko/src/fst/UnweightedTransducer.cpp
index ce9f0cd..0421107 100644
--- a/libvoikko/src/fst/UnweightedTransducer.cpp
+++ b/libvoikko/src/fst/UnweightedTransducer.cpp
@@ -201,6 +201,10 @@ namespace libvoikko { namespace fst {
 		configuration->stateIndexStack[0] = 0;
 		configuration->currentTransitionStack[0] = 0;
 		configuration->inputLength = 0;
+		if (flagDiacriticFeatureCount) {
+			// previous lookup may have been abandoned before all flags were restored
+			memset(configuration->currentFlagValues, 0, flagDiacriticFeatureCount * sizeof(uint16_t));
+		}
 		bool allKnown = true;
 		while ((size_t)configuration->inputLength < inputLen) {
 			std::map<wchar_t,uint16_t>::const_iterator it = stringToSymbol.find(input[configuration->inputLength]);
-- 
2.43.0


From ba2775f44d834165a14939342a2f88f76b25b23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:38 +0000
Subject: [PATCH 09/11] fix: copy only the given characters when trying a
 capitalised word

Words given to VfstSpeller are delimited by their length; copying up to a
terminating null read past the end of unterminated text.
---
 libvoikko/src/spellchecker/VfstSpeller.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libvoikko/src/spellchecker/VfstSpeller.cpp b/libvoikko/src/spellchecker/VfstSpeller.cpp
index 02dbe4d..2d9c422 100644
--- a/libvoikko/src/spellchecker/VfstSpeller.cpp
+++ b/libvoikko/src/spellchecker/VfstSpeller.cpp
@@ -62,9 +62,10 @@ spellresult VfstSpeller::doSpell(const wchar_t * word, size_t wlen) {
  
 spellresult VfstSpeller::spell(const wchar_t * word, size_t wlen) {
 	spellresult result = doSpell(word, wlen);
-	if (result == SPELL_FAILED && SimpleChar::isLower(word[0])) {
+	if (result == SPELL_FAILED && wlen > 0 && SimpleChar::isLower(word[0])) {
 		// XXX: This slightly inefficient hack allows us to support SPELL_CAP_FIRST
-		wchar_t * modifiedWord = StringUtils::copy(word);
+		wchar_t * modifiedWord = new wchar_t[wlen];
+		wmemcpy(modifiedWord, word, wlen);
 		modifiedWord[0] = SimpleChar::upper(word[0]);
 		result = doSpell(modifiedWord, wlen);
 		if (result == SPELL_OK) {
-- 
2.43.0


From ba5fb28f6d75e3f0a91aa679ffb885d81b9f79bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:15 +0000
Subject: [PATCH 10/11] fix: try all flag diacritics at the end of input in
 weighted transducers

With no input left, a flag diacritic that did not match ended the search of
the state, so paths through the remaining flag diacritics were lost.
---
 libvoikko/src/fst/WeightedTransducer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libvoikko/src/fst/WeightedTransducer.cpp b/libvoikko/src/fst/WeightedTransducer.cpp
index 25e5b6c..0cd2234 100644
--- a/libvoikko/src/fst/WeightedTransducer.cpp
+++ b/libvoikko/src/fst/WeightedTransducer.cpp
@@ -360,7 +360,7 @@ namespace libvoikko { namespace fst {
 					}
 					goto nextInMainLoop;
 				}
-				else if (currentTransition->symIn > inputSym) {
+				else if (inputSym != 0 && currentTransition->symIn > inputSym) {
 					break;
 				}
 				else if (tc >= 1 && currentTransition->symIn >= firstNormalChar &&
-- 
2.43.0


From 971168e0691774998430c49a05cf4ae24ef84059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:57 +0000
Subject: [PATCH 11/11] fix: restore flag diacritic state when backtracking in
 weighted transducers

---
 libvoikko/src/fst/WeightedTransducer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libvoikko/src/fst/WeightedTransducer.cpp b/libvoikko/src/fst/WeightedTransducer.cpp
index 0cd2234..94ed2d6 100644
--- a/libvoikko/src/fst/WeightedTransducer.cpp
+++ b/libvoikko/src/fst/WeightedTransducer.cpp
@@ -422,6 +422,9 @@ namespace libvoikko { namespace fst {
 				if (previousInputSymbol >= firstNormalChar) {
 					configuration->inputDepth--;
 				}
+				else if (flagDiacriticFeatureCount && previousInputSymbol != 0) {
+					configuration->flagDepth--;
+				}
 			}
 			configuration->currentTransitionStack[configuration->stackDepth]++;
 		}
-- 
2.43.0

