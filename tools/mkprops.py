#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

GRID = ["src/Engine/gramambular2/reading_grid.cpp", "src/Engine/gramambular2/reading_grid.h", "src/Engine/gramambular2/language_model.h"]
prop("G01", "Conversion is the best-scoring valid segmentation of what was typed",
 "For any sequence of readings and any language model, the conversion covers every reading exactly once, in order, with segments of at most six readings, and shows for each segment a word the language model offers for exactly those readings (its best one unless the user chose another). The total score of the chosen segments is the maximum over all possible segmentations. Converting nothing gives nothing.",
 ["inputs", "histories"], "every language model with unigram scores, every sequence of insertions, deletions and choices that produced the readings",
 "The existing tests convert a handful of sentences with one fixed model; optimality over all segmentations and after arbitrary edits is a statement about all models and histories.",
 GRID, [("shortest-path walk", "ReadingGrid::walk"), ("node construction", "ReadingGrid::update, Span::add"), ("ranking of unigrams", "ScoreRankedLanguageModel")],
 ["ReadingGrid::walk result: nodes, values, readings"],
 [("spans", "candidate segments starting at each position", "ReadingGrid::spans_")])
prop("G02", "Editing the text is equivalent to having typed it differently",
 "After any history of inserting, deleting before or after the cursor and moving the cursor, the readings and cursor are those of a plain list edited the same way, and (when no choice was made) the conversion and the candidates everywhere are the same as if the remaining readings had been typed afresh. An operation that is refused (unknown reading, separator, deletion at an edge) changes nothing.",
 ["histories", "inputs"], "every edit history over every language model, cursor positions from start to end",
 "Tests insert and delete at a few fixed places of fixed sentences; stale or missing segments show up only for particular insert/delete positions relative to multi-reading segments.",
 GRID, [("grid expansion and shrinking", "ReadingGrid::expandGridAt, shrinkGridAt, removeAffectedNodes"), ("insert/delete", "ReadingGrid::insertReading, deleteReadingBeforeCursor, deleteReadingAfterCursor"), ("re-population", "ReadingGrid::update")],
 ["ReadingGrid::readings, cursor, length, walk, candidatesAt"])
prop("G03", "A chosen word stays, and the candidate list is complete and ordered",
 "Choosing an offered candidate makes the conversion show that word on the segment it was offered for, and it stays there until the user chooses an overlapping segment, edits inside the segment, or deletes part of it; choices on other segments are unaffected. The candidates at a position are exactly the words the language model offers for the segments covering it, longer segments first and each segment's words by falling score. A choice that is not offered is refused and changes nothing.",
 ["histories", "inputs"], "every history of edits and choices over language models whose scores lie between -8 and 0 (the range for which a user's choice outweighs every alternative)",
 "Tests override single nodes in fixed sentences; which earlier choice is lost depends on the relative position and length of segments and on later edits.",
 GRID, [("override", "ReadingGrid::overrideCandidate"), ("overlapping choices are reset", "ReadingGrid::overrideCandidate"), ("candidate list", "ReadingGrid::candidatesAt"), ("invalidated nodes", "ReadingGrid::removeAffectedNodes")],
 ["ReadingGrid::overrideCandidate return value, candidatesAt, walk"],
 [("override type", "whether and how the user's choice outweighs the model", "ReadingGrid::Node::overrideType_")])

prop("M01", "Offered words merge built-in, user, excluded, replaced and converted words",
 "For every reading, the offered words are the user's phrases followed by the built-in words, in file order, without the excluded words (compared before replacement or conversion), each passed through phrase replacement, macro expansion and the script converter when those are on, without duplicates (the user's copy kept) and without built-in macros that are not supported. A user phrase outranks every built-in word for the same reading: score 0, except for a single-syllable reading, where it is just above the best remaining built-in word. A reading is reported as known exactly when it offers at least one word; a space is always known and offers itself.",
 ["inputs", "configurations"], "every combination of built-in data, user, excluded and replacement files and converter switches, every queried reading",
 "Tests combine at most two of the sources with fixed data; the interactions (excluded after replaced, duplicate after conversion, all words excluded) are a product space.",
 ["src/Engine/McBopomofoLM.cpp", "src/Engine/McBopomofoLM.h", "src/Engine/ParselessLM.cpp", "src/Engine/UserPhrasesLM.cpp", "src/Engine/PhraseReplacementMap.cpp"],
 [("merge", "McBopomofoLM::getUnigrams"), ("filtering and conversion", "McBopomofoLM::filterAndTransformUnigrams"), ("known readings", "McBopomofoLM::hasUnigrams")],
 ["McBopomofoLM::getUnigrams, hasUnigrams"])
prop("D01", "Dictionary lookup finds exactly the rows that a linear scan finds",
 "In any dictionary file that starts with the sorted-format header and whose rows are sorted by key, looking up a key, or the beginning of one, returns exactly the rows starting with it, in file order, and looking up a word returns exactly the rows whose value starts with it; a reading's words and scores, and a word's best-scored reading, are those of the rows. A file without the header yields nothing. No lookup reads outside the data.",
 ["inputs"], "every sorted file (with and without a final newline, of any size and key length), every queried key and word, including absent ones, prefixes and extensions of present ones",
 "The tests query a few keys of small fixed tables; a byte-offset binary search fails, if it does, for particular row lengths and positions.",
 ["src/Engine/ParselessPhraseDB.cpp", "src/Engine/ParselessPhraseDB.h", "src/Engine/ParselessLM.cpp", "src/Engine/McBopomofoLM.cpp"],
 [("binary search", "ParselessPhraseDB::findFirstMatchingLine, findRows"), ("reverse lookup", "ParselessPhraseDB::reverseFindRows"), ("row parsing", "ParselessLM::getUnigrams, getReadings"), ("best reading", "McBopomofoLM::getReading")],
 ["ParselessPhraseDB::findRows, reverseFindRows, ParselessLM::getUnigrams, hasUnigrams, getReadings, McBopomofoLM::getReading"])
prop("D02", "Every word of the shipped dictionary can be typed on every keyboard layout",
 "For every syllable in the shipped plain dictionary and each of the six keyboard layouts, typing the syllable's keys offers exactly the words the dictionary lists for it, in the dictionary's order (before them the user's own, without the excluded), and choosing one delivers it; its punctuation marks and symbols are offered by their keys and by the symbol list, the layout's own before the common ones. Every associated phrase that is shipped is offered, in order of its score, after the characters and readings it begins with. Looking up any reading, word or beginning in the shipped files gives exactly the rows that a linear scan gives.",
 ["inputs", "configurations", "histories"], "every row of the shipped files, every layout, plain and smart mode, words typed alone or after one another",
 "Tests use small made-up tables or a few words of the shipped ones; whether a row can be reached depends on the size and order of the whole file, on how its key is spelt and on the layout.",
 ["data/data-plain-bpmf.txt", "data/associated-phrases-v2.txt", "src/Engine/ParselessPhraseDB.cpp", "src/Engine/ParselessLM.cpp", "src/Engine/McBopomofoLM.cpp", "src/Engine/AssociatedPhrasesV2.cpp", "src/KeyHandler.cpp"],
 [("look-up", "ParselessPhraseDB::findRows, ParselessLM::getUnigrams"), ("associated phrases", "AssociatedPhrasesV2::findPhrases"), ("keys to candidates", "KeyHandler::handle, handlePunctuation, buildChoosingCandidateState")],
 ["McBopomofoLM look-ups on the shipped files; candidates offered and text delivered by KeyHandler"])
prop("A01", "Associated phrases are exactly the longer phrases with the given beginning",
 "For a beginning given as a single character, or as characters with one reading each, the associated phrases are exactly the entries that continue it, highest score first (file order for equal scores), each phrase value once with its best-scored readings. An empty beginning, or readings that do not match the characters in number, gives none. Splitting a combined reading and combining it again gives the same text.",
 ["inputs"], "every sorted associated-phrase table with multi-byte characters and several readings per character, every prefix length",
 "Tests look up two or three prefixes; ordering, duplicates with different readings and prefix boundaries inside multi-byte text need generated tables.",
 ["src/Engine/AssociatedPhrasesV2.cpp", "src/Engine/AssociatedPhrasesV2.h", "src/Engine/ParselessPhraseDB.cpp"],
 [("prefix search", "AssociatedPhrasesV2::findPhrases"), ("row parsing", "AssociatedPhrasesV2.cpp PhraseFromRow, GetScoreInRow"), ("reading split/combine", "AssociatedPhrasesV2::SplitReadings, CombineReadings")],
 ["AssociatedPhrasesV2::findPhrases, SplitReadings, CombineReadings"])
prop("K01", "User data files parse to their entries for any bytes, within bounds",
 "Reading a user data file yields its entries in order: for each line that is neither blank nor a comment, the first two words, ignoring the rest of the line, for any mixture of spaces, tabs, line endings, comments, indentation and a missing final newline. At the first line with a single word, reading stops with an error that persists; at a NUL byte or the end it stops. Arbitrary bytes never make it read outside the data.",
 ["inputs"], "every byte string, including truncated lines, NUL bytes, only blanks, comments without newline",
 "Tests use about fifteen fixed blobs; the state machine has several exits that depend on exactly where the data ends.",
 ["src/Engine/KeyValueBlobReader.cpp", "src/Engine/KeyValueBlobReader.h", "src/Engine/UserPhrasesLM.cpp", "src/Engine/PhraseReplacementMap.cpp"],
 [("scanner", "KeyValueBlobReader::Next, SkipUntil, SkipUntilNot"), ("phrase table", "UserPhrasesLM::load"), ("replacement table", "PhraseReplacementMap::load")],
 ["KeyValueBlobReader::Next, UserPhrasesLM::getUnigrams, PhraseReplacementMap::valueForKey"])
prop("U01", "Text is only ever cut between whole characters",
 "Counting, taking the first n characters, picking an existing character and splitting agree with the sequence of code points of any valid UTF-8 text; splitting and joining gives the text back. On invalid text they stop at the first invalid sequence (surrogates, overlong forms, values beyond U+10FFFF, truncated or stray bytes) and never return a partial character or read outside the text.",
 ["inputs"], "every byte string, valid or not, every character index including past the end",
 "Tests use a few literals; the decoder's limits are per code-point range and per byte position.",
 ["src/Engine/UTF8Helper.cpp", "src/Engine/UTF8Helper.h"],
 [("decoder", "UTF8Helper.cpp DecodeUTF8"), ("users", "CodePointCount, SubstringToCodePoints, GetCodePoint, Split")],
 ["CodePointCount, SubstringToCodePoints, GetCodePoint, Split"])
MAND = ["src/Engine/Mandarin/Mandarin.cpp", "src/Engine/Mandarin/Mandarin.h"]
prop("B01", "Every keyboard layout lets the user type every syllable, key by key",
 "On every keyboard layout, for every syllable of Mandarin with every tone, typing the keys of its symbols (its letters, in Pinyin) one by one composes exactly that syllable, and as many backspaces take it back. For any other sequence of keys the reading always has at most one consonant, one medial, one vowel and one tone, in that order; where each key has one symbol, the reading holds exactly the last symbol typed of each kind. Keys the layout does not use change nothing. Each backspace removes the last symbol (the last letter in Pinyin; at least one symbol where keys are shared) until the reading is empty, and clearing or switching the layout leaves no trace of what was typed before.",
 ["inputs", "histories", "configurations"], "all six layouts, all syllables (21 initials, 3 medials, 13 finals, 5 tones) and all key sequences including backspace, clear and layout switches",
 "Tests compose about ten syllables on the standard layout and some on Hsu/ETen26; the combined-key rules of the compact layouts depend on the whole key history.",
 MAND, [("layouts", "BopomofoKeyboardLayout::StandardLayout, ETenLayout, HsuLayout, ETen26Layout, IBMLayout, HanyuPinyinLayout"), ("key sequence to syllable", "BopomofoKeyboardLayout::syllableFromKeySequence, keySequenceFromSyllable"), ("reading buffer", "BopomofoReadingBuffer::combineKey, backspace, clear, setKeyboardLayout")],
 ["BopomofoReadingBuffer: composedString, isEmpty, hasToneMarker, hasToneMarkerOnly, syllable"])
prop("B02", "Spellings of a syllable convert into each other without loss",
 "For every Mandarin syllable, its Bopomofo text and its Hanyu Pinyin spelling (with v or ü, in any case) are the standard ones and convert back to the same syllable, as do the other accepted spellings: the unabbreviated finals (iou, uei, uen, ien, ven, veng, ung), yung, err, fong, and an explicit first tone. Converting arbitrary text to a syllable takes exactly its leading Bopomofo symbols and tone marks, a later one replacing an earlier one of its kind, and never reads outside the text; arbitrary text read as Pinyin gives a well-formed syllable.",
 ["inputs"], "every syllable and every byte string given as Bopomofo or Pinyin text, including truncated sequences",
 "Tests convert a dozen spellings; the Pinyin rules are a long table of special cases per initial and final.",
 MAND, [("Bopomofo text", "BopomofoSyllable::FromComposedString, composedString"), ("Pinyin", "BopomofoSyllable::FromHanyuPinyin, HanyuPinyinString")],
 ["BopomofoSyllable conversions"])
prop("N01", "Chinese numbers read back as the number that was entered",
 "For every decimal number of up to 48 integer digits, the lower-case and the formal Chinese numeral read back, by the ordinary rules of Chinese numerals, as exactly that number: leading zeros and trailing decimal zeros dropped, a zero word exactly where digits are skipped before a later non-zero digit in the same or after an all-zero group, and each group of four with its own unit. Decimals follow the decimal word digit by digit, and zero itself is the zero word.",
 ["inputs"], "every integer part and fraction, in particular every pattern of zero digits",
 "The tests cover twenty numbers; the zero rules depend on the positions of zeros within and across groups.",
 ["src/ChineseNumbers/ChineseNumbers.cpp", "src/ChineseNumbers/StringUtils.cpp"],
 [("numeral", "ChineseNumbers::Generate"), ("trimming and padding", "StringUtils")],
 ["ChineseNumbers::Generate"])
prop("N02", "Suzhou numerals encode the digits and the magnitude of the number",
 "For every decimal number, the Suzhou numeral's digit row spells the significant digits (leading zeros, trailing decimal zeros and, for integers, trailing zeros dropped), with 1, 2 and 3 alternating between vertical and horizontal strokes in a run and starting a run in the preferred direction; the second row names the place of the first integer digit and then the unit. A single significant digit is written without a second row, with 10, 20 and 30 as their own signs.",
 ["inputs"], "every integer part of up to 32 digits and fraction, both preferred directions, any unit",
 "The tests cover about fifteen numbers; alternation restarts and magnitude depend on the digit pattern.",
 ["src/ChineseNumbers/SuzhouNumbers.cpp", "src/ChineseNumbers/StringUtils.cpp"],
 [("numeral", "SuzhouNumbers::Generate")],
 ["SuzhouNumbers::Generate"])
prop("O01", "Learned choices are suggested in the same context until they fade",
 "After any history of observed choices, the suggestion for a context (the head word and up to two preceding words, cut at punctuation) is the word most strongly learned there, weighing how often and how recently it was chosen with the documented half-life; a word fully decayed (about twenty half-lives) or never chosen in that context is not suggested. At most the configured number of contexts is remembered, the least recently chosen ones being forgotten first, and asking never changes what is remembered. A suggestion asks for a forced score exactly when the last choice of that word joined shorter words into a longer one.",
 ["histories", "inputs"], "every sequence of observations and queries at non-decreasing times, every capacity and half-life",
 "Tests make at most four observations; eviction and decay interplay needs long histories with clock jumps.",
 ["src/Engine/UserOverrideModel.cpp", "src/Engine/UserOverrideModel.h"],
 [("LRU of contexts", "UserOverrideModel::observe"), ("decayed score", "UserOverrideModel.cpp Score"), ("context key", "UserOverrideModel.cpp FormObservationKey"), ("kind of override", "UserOverrideModel::observe(walks)")],
 ["UserOverrideModel::suggest, observe"])
prop("X01", "Date and time macros name the right day, year and time for any clock",
 "At any point in time and in any time zone, each supported date, time, weekday, time-zone, year, era (Gregorian, Republic of China, Japanese), stem-branch and zodiac macro expands to the text for the current local moment or the stated offset of days or years from it, and a text that is not a supported macro is returned unchanged.",
 ["inputs", "configurations"], "every instant from 1928 to 2100, including leap days, year ends and era changes, time zones on both sides of UTC",
 "The macros read the real clock, so a test can only see the day it runs on; there are no tests of them.",
 ["src/InputMacro.cpp", "src/InputMacro.h"],
 [("macro table", "InputMacroController::handle"), ("where they are used", "McBopomofoLM::convertMacro, McBopomofoLM::filterAndTransformUnigrams"), ("date macros", "InputMacro.cpp InputMacroDate..., InputMacroYear..., InputMacroTimeZone...")],
 ["InputMacroController::handle under a controlled clock and TZ"])
prop("F01", "A phrase the user adds or removes is stored and takes effect, losing nothing",
 "After any history of adding phrases through the input method and editing the user, excluded and replacement files from outside, on a fresh or existing user directory, every line that was in a file is still there, the added phrase follows on a line of its own even if the file did not end with a newline, and the loaded language model equals one freshly loaded from the files. A changed file is noticed at the next reload (and until then the words loaded before are offered), and phrase replacement is on exactly while its file is there.",
 ["histories", "configurations"], "every interleaving of additions, external edits (with or without final newline), reloads and switches; user directory absent, empty or populated",
 "No existing test touches the loader; the outcome depends on the state the files were left in by earlier steps.",
 ["src/LanguageModelLoader.cpp", "src/LanguageModelLoader.h", "src/TimestampedPath.cpp", "src/Engine/UserPhrasesLM.cpp", "src/Engine/McBopomofoLM.cpp"],
 [("append", "LanguageModelLoader::addUserPhrase"), ("reload", "LanguageModelLoader::reloadUserModelsIfNeeded"), ("first run", "LanguageModelLoader constructor, populateUserDataFilesIfNeeded"), ("change detection", "TimestampedPath::timestampChanged, checkTimestamp")],
 ["files in the user data directory; McBopomofoLM::getUnigrams after reload"])
prop("F02", "Whatever is found at a data file's path, opening it is safe",
 "Opening any data file (dictionary, associated phrases, user phrases, replacement map) succeeds only for a non-empty regular file and otherwise fails cleanly: a missing path, an empty file, a directory, an unreadable path or garbage content never crashes the input method, after a failed open every query answers as with no data, and the same object can afterwards open and serve a good file. Closing and reopening serves the new content only, and a file that has been closed or could not be opened is left neither open nor mapped into memory.",
 ["inputs", "fault_sequences"], "every sequence of opening, closing, moving and querying over paths of every kind and arbitrary file contents",
 "Tests open one good file and one missing path; the failing branches of the system calls are never taken.",
 ["src/Engine/MemoryMappedFile.cpp", "src/Engine/ParselessLM.cpp", "src/Engine/AssociatedPhrasesV2.cpp", "src/Engine/UserPhrasesLM.cpp", "src/Engine/PhraseReplacementMap.cpp"],
 [("mapping", "MemoryMappedFile::open, close, move"), ("users", "ParselessLM::open, AssociatedPhrasesV2::open, UserPhrasesLM::open, PhraseReplacementMap::open")],
 ["return values and query results", "the process's open files and mappings"])
prop("F03", "Missing or obstructed files never stop the input method",
 "Whichever of the files that come with the input method are missing, empty or unusable, and whatever is found where the user's files or the directories leading to them belong (other files, directories, links that lead nowhere), the input method starts, changes nothing that was there, and offers exactly the words of the files that can be read: syllables with words compose, the others are rejected, phrases of a missing dictionary are not offered, and switching the mode offers what that mode's dictionary has, nothing of the other's. Adding a phrase that cannot be stored changes no file. Once a file is in place or the obstacle is gone, the next load or start uses it.",
 ["configurations", "fault_sequences", "histories"], "every combination of missing, empty and unusable shipped files with obstacles at every level of the user directory, through histories of additions, reloads, mode switches, repairs and restarts",
 "No test constructs the loader, and all its failing branches need a damaged installation or home directory.",
 ["src/LanguageModelLoader.cpp", "src/Engine/McBopomofoLM.cpp", "src/Engine/MemoryMappedFile.cpp", "src/TimestampedPath.cpp", "src/KeyHandler.cpp"],
 [("start", "LanguageModelLoader constructor, populateUserDataFilesIfNeeded"), ("mode switch", "LanguageModelLoader::loadModelForMode, McBopomofoLM::loadLanguageModel"), ("adding", "LanguageModelLoader::addUserPhrase")],
 ["McBopomofoLM look-ups, states and errors from KeyHandler, the files of the home directory"])

KH = ["src/KeyHandler.cpp", "src/KeyHandler.h", "src/InputState.h", "src/InputState.cpp"]
KHW = "The key handler's own tests need a dictionary that is not part of this tree; even with it they follow about thirty fixed key sequences, while states, settings and keys multiply."
prop("S01", "What is shown is always the conversion of what was typed",
 "After any sequence of keys, candidate choices and cancellations under any settings, the text shown is exactly the best conversion of the readings typed and not deleted (with the user's choices), with the unfinished syllable at the cursor, and the cursor stands at the character boundary that corresponds to its position among the readings, at the end of the word if the word has fewer characters than readings. An unknown syllable is rejected with an error and leaves the rest untouched. Arrow keys, Home and End move the cursor by whole readings, and Backspace and Delete remove exactly the adjacent symbol or reading, with an error and no change at an edge.",
 ["histories", "inputs", "configurations"], "every key sequence, dictionary and combination of settings", KHW,
 KH, [("dispatch", "KeyHandler::handle"), ("shown text and cursor", "KeyHandler::getComposedString, buildInputtingState"), ("cursor keys", "KeyHandler::handleCursorKeys"), ("deletion", "KeyHandler::handleDeleteKeys")],
 ["states passed to the state callback: composing buffer, cursor index, tooltip; error callback"],
 [("grid", "the readings and the user's choices", "KeyHandler::grid_"), ("reading", "the unfinished syllable", "KeyHandler::reading_")])
prop("S02", "Committing delivers exactly what was shown, once",
 "Whenever composed text is delivered to the application (Enter, an uppercase letter or Shift+Space after it, leaving plain mode's list), it is exactly the converted text that was shown, followed by the extra character if there is one, and afterwards nothing remains composed, so nothing can be delivered twice. With the corresponding setting, Ctrl+Enter delivers the joined readings or the ruby markup of the same segments instead. Escape either clears everything or only the unfinished syllable, as set, and never delivers anything.",
 ["histories", "configurations"], "every key history leading to a commit or cancellation, every dictionary and setting", KHW,
 KH, [("Enter", "KeyHandler::handle RETURN branch"), ("letters and Shift+Space", "KeyHandler::handle"), ("ruby", "KeyHandler::getHTMLRubyText"), ("reset", "KeyHandler::reset"), ("Escape", "KeyHandler::handle ESC branch")],
 ["sequence of committing states; state after it"])
prop("S03", "With nothing composed, keys the input method does not use go to the application",
 "When nothing is composed, a key that neither starts a syllable nor is a known punctuation or letter of the current settings is left to the application, with no visible effect at all; in particular Enter, Escape, Backspace, Delete, Tab, Space, the arrows and unknown keys. While something is composed, every key is consumed, except Ctrl+Enter when it has no configured function. Punctuation is taken from the half-width set if that is on, then the layout's own set, then the general one, and with Ctrl from the control set only.",
 ["histories", "configurations"], "every history that ends with an empty composition, every key with modifiers, every dictionary and setting", KHW,
 KH, [("pass-through", "KeyHandler::handle"), ("punctuation", "KeyHandler::handlePunctuation")],
 ["return value of key handling; states and errors emitted"])
prop("S04", "Choosing a candidate changes only what was chosen",
 "Opening the candidate list (Space or Down) offers the words for the segments at the cursor, before or after it as set; choosing one shows it in place, keeps every other choice, and leaves the cursor where it was or, if so set, right after the chosen word. Cancelling restores the text and cursor exactly as they were. A later syllable typed in the same context suggests the learned choice, and Tab and Shift+Tab step through the same list forwards and backwards, wrapping around.",
 ["histories", "configurations"], "every composition, cursor position, candidate and setting", KHW,
 KH + ["src/Engine/UserOverrideModel.cpp"], [("list", "KeyHandler::buildChoosingCandidateState, actualCandidateCursorIndex"), ("choice", "KeyHandler::candidateSelected, pinNode"), ("cancel", "KeyHandler::candidatePanelCancelled"), ("cycling", "KeyHandler::handleTabKey")],
 ["candidates of the choosing state; inputting state after choice or cancel"])
prop("S05", "Marking adds exactly the marked text with exactly its readings",
 "Extending the cursor with Shift marks the text between the starting and current cursor, shown as head, marked part and tail that together are the unchanged text. The mark can be confirmed exactly when it spans two to six readings and is not already a known phrase; Enter then adds exactly that text with exactly the marked readings once and returns to composing, and otherwise only signals an error. Leaving the mark changes nothing.",
 ["histories", "inputs"], "every composition, mark start and extent, including words with fewer or more characters than readings", KHW,
 KH, [("mark", "KeyHandler::buildMarkingState"), ("confirm", "KeyHandler::handle RETURN branch"), ("movement", "KeyHandler::handleCursorKeys")],
 ["marking state fields; calls to add a user phrase"])
prop("S06", "Plain mode turns every syllable into a choice and commits only that choice",
 "In plain mode a completed syllable or punctuation with a single word is delivered at once, and one with several opens the list of exactly those words; choosing delivers exactly the chosen word and nothing stays composed, cancelling delivers nothing. Typing the next syllable or punctuation key while the list is open delivers the highlighted word first and then starts the new input. With associated phrases on, the follow-up list contains exactly the continuations of the delivered word, without the word itself.",
 ["histories", "configurations"], "every key history in plain mode over every dictionary and setting", KHW,
 KH, [("single candidate", "KeyHandler::handle, handlePunctuation"), ("choice", "KeyHandler::candidateSelected"), ("typing through the list", "KeyHandler::handleCandidateKeyForTraditionalBopomofoIfRequired"), ("follow-up list", "KeyHandler::buildAssociatedPhrasesPlainState")],
 ["states, commits and candidates"])
prop("S07", "An associated phrase is inserted whole and leaves the rest of the text alone",
 "Asking for associated phrases offers exactly the phrases that continue the longest possible run of the word before the cursor. Choosing one makes the text read as before with that run replaced by the whole phrase, its remaining readings inserted after it, the cursor behind it, and every character outside the phrase unchanged as far as the dictionary has it as a word of its own. Nothing is offered or changed when there is no match.",
 ["histories", "inputs"], "every composition with single-character-per-reading words, cursor positions at the end and in the middle, prefixes inside longer words", KHW,
 KH + ["src/Engine/AssociatedPhrasesV2.cpp"], [("prefix search", "KeyHandler::handleAssociatedPhrases, buildAssociatedPhrasesState"), ("insertion", "KeyHandler::pinNodeWithAssociatedPhrase")],
 ["candidates; composing buffer and cursor afterwards"])
prop("S08", "Number input turns the typed digits into the requested numeral",
 "In the Chinese, formal and Suzhou number modes, digits and at most one decimal point accumulate up to the limit, deletion removes the last one, anything else is refused with an error, Enter delivers exactly the numeral of the digits typed in the chosen style, and Escape delivers nothing. In the enclosed number mode up to three digits accumulate and Enter or Space delivers the enclosed form, offers the forms if there are several, or signals an error if there is none.",
 ["histories", "inputs"], "every key sequence in each number mode", KHW,
 KH + ["src/ChineseNumbers/ChineseNumbers.cpp", "src/ChineseNumbers/SuzhouNumbers.cpp"], [("number modes", "KeyHandler::handleChineseNumber"), ("enclosed numbers", "KeyHandler::handleEnclosingNumber"), ("menu", "InputStates::SelectingFeature")],
 ["number states, commits, errors"])
prop("H01", "The phrase hook records the user's files and never damages them",
 "Whatever the added phrase is and whatever is in the user directory, running the shipped add-phrase hook (as it is installed) there leaves the user's files as they are, apart from lines that another machine sharing the repository has added. Afterwards everything is recorded in the repository's master branch, which is created if there is none, in a commit that carries exactly the phrase, and earlier commits are kept. The commit reaches the shared repository unless it conflicts with another machine's; even then no file is damaged, nothing is left half done, and later runs still record.",
 ["inputs", "histories", "faults"], "every phrase text, every history of edits and hook runs on machines with no, their own or a shared repository, with concurrent changes",
 "There is no test of the hook; what it does depends on the state of the local and shared repositories left by earlier runs on both machines.",
 ["data/add-phrase-hook.sh", "src/McBopomofo.cpp"], [("hook", "data/add-phrase-hook.sh"), ("hook invocation", "McBopomofoEngine::McBopomofoEngine, setOnAddNewPhrase")],
 ["files in the user directory; commits of both repositories"])
MC = ["src/McBopomofo.cpp", "src/McBopomofo.h"]
MCW = "There are no tests of the fcitx5 engine at all; the behaviour depends on the history of key events, focus changes and settings."
prop("E01", "The candidate shown next to a selection key is the one that key selects",
 "Whatever list is open, it offers the right candidates with as many on a page as selection keys are configured, each labelled with its key. Pressing the selection key (or the keypad digit, when the keys are digits) of a visible candidate, clicking it, or pressing Enter on the highlighted one acts on exactly that candidate; a selection key without a visible candidate chooses nothing. Cursor and paging keys, as the configured direction has them, and the desktop's own paging keys move the highlight over all candidates and pages in order, wrapping at the ends. The question mark and Shift-Enter act on the highlighted candidate. Escape closes the list and leaves the text and cursor as they were before it was opened; leaving a list opened on a list shows that list again with the same candidate highlighted.",
 ["histories", "configurations"], "every list length (including partial last pages), page, highlight, direction, selection-key set, number of selection keys and paging keys of the desktop, in both modes; where the panel's own paging buttons have moved the page away from the highlight, what Enter takes and where cursor keys go is not prescribed", MCW,
 MC, [("list keys", "McBopomofoEngine::handleCandidateKeyEvent"), ("list construction", "McBopomofoEngine::handleCandidatesState"), ("choosing", "McBopomofoCandidateWord and the other candidate words")],
 ["input panel candidate list: texts, labels, page size, page, highlight; preedit and commits seen by the application"])
prop("E02", "No sequence of events crashes the input method or loses what was shown",
 "For any sequence of key presses and releases, clicks, focus changes between applications, application resets, input-method switches and setting changes, the input method keeps running without memory errors; the preedit, the candidates and all delivered text are valid UTF-8 and the preedit cursor is on a character boundary inside it. What the application and the panel show and what is delivered is at every step what the events call for, and whether a key is consumed or passed on agrees with it; key releases and Alt or Super combinations are passed on without effect. Losing focus delivers the text shown, exactly once, and leaves nothing behind for the next focus; so does switching the input method; a reset by the application discards it.",
 ["histories", "configurations", "fault_sequences"], "every event history over the whole key range with Shift, Ctrl, Alt, Super and NumLock and all settings, with applications that show the preedit or do not and that commit on losing focus or leave it to the input method; text an application cannot show is not delivered on losing focus", MCW,
 MC + KH, [("events", "McBopomofoEngine::keyEvent, activate, deactivate, reset"), ("state transitions", "McBopomofoEngine::enterNewState and handlers"), ("key mapping", "McBopomofo.cpp MapFcitxKey")],
 ["preedit, panel, commits of an fcitx input context; key events accepted or not; sanitizers"])
prop("E03", "Looking up a word opens the right service with the whole word",
 "For any word and any configured list of dictionary services, the menu names each service with the word, in order, and choosing entry n opens service n's address with the word percent-encoded in place of the placeholder and the rest of the address unchanged; the list of services that comes with the input method is such a list. A malformed service file is ignored without harm. After a look-up the composition is neither delivered twice nor lost.",
 ["inputs", "configurations"], "every word, every service address (placeholder at the start, middle, end or absent), every number of services and every service file content, the shipped one included",
 "The services start an external browser, so no test exercises them.",
 ["src/DictionaryService.cpp", "src/DictionaryService.h", "src/KeyHandler.cpp", "src/McBopomofo.cpp"],
 [("address", "HttpBasedDictionaryService::lookup"), ("services", "DictionaryServices::load, menuForPhrase, lookup")],
 ["the address handed to the opener; menu entries; states"])
prop("E04", "Settings are applied and remembered",
 "Every setting changed through the configuration interface or the status menu holds from the next activation at the latest and takes effect as documented: keyboard layout, candidate direction, selection keys and their number, candidates before or after the cursor, cursor movement after a choice and in the list, what Escape and Shift-letters do, Ctrl-Enter output, punctuation width and associated phrases. Settings not mentioned in a change keep their value. The values read back and those in the configuration file are the ones set, and a new instance starts with them. The status menu shows the state of its switches, announces a switch that is used once with its new state where the desktop has notifications, includes the Chinese conversion switch where there is one, and offers the phrase-file entries only in the smart mode; those open the right file with the configured program. Adding a phrase writes it to the user phrase file, runs the configured hook with it when enabled and not otherwise, and the phrase is in use afterwards.",
 ["histories", "configurations"], "every combination of settings, every order of changes, menu switches, activations and restarts", "No test covers the configuration or the engine; interactions show only in histories.",
 MC + ["src/KeyHandler.cpp", "src/LanguageModelLoader.cpp"],
 [("settings", "McBopomofoConfig, McBopomofoEngine::setConfig, reloadConfig, activate"), ("menu", "McBopomofoEngine::McBopomofoEngine actions"), ("adding phrases", "KeyHandler on-add-new-phrase callback, LanguageModelLoader::addUserPhrase")],
 ["configuration values and file; status area; processes started; composing under each setting"])
prop("L01", "Messages are in the user's language and state the facts",
 "In every language, shipped or not, every text the input method itself shows - the tooltip at a cursor between two syllables and over a marked range (with what is marked, its readings and why it can or cannot be added), the hint of the adding step, the labels of the dictionary menu and of the status menu with the state each switch is in now, the names and descriptions of the settings and of their choices, and the explanatory lines of new user files - is the translation of the shipped catalogue where it has a finished one and the English text otherwise, with the actual words, readings and numbers in their proper places. The language changes nothing else: the settings and the values stored for them are the same, a new user file contains only comment lines in every language, and keys do the same.",
 ["histories", "configurations"], "every language list, every message with every value, at any point of any history", "No test loads the catalogues, the engine or its tooltips; a message lost, or filled with the wrong value, is seen only in a language and a state.",
 ["src/McBopomofo.cpp", "src/McBopomofo.h", "src/LanguageModelLoader.cpp", "src/KeyHandler.cpp", "src/DictionaryService.cpp", "po/zh_TW.po", "po/en.po", "po/LINGUAS"],
 [("messages", "KeyHandlerLocalizedString, KeyHandler::buildInputtingState and buildMarkingState tooltips"), ("menus", "DictionaryServices::menuForPhrase, McBopomofoEngine::McBopomofoEngine actions"), ("files", "LanguageModelLoaderLocalizedStrings, McBopomofoEngine user file headers")],
 ["tooltips, hints, menu labels, configuration description, new user files, in several languages"])

prop("C01", "The desktop's language and region change nothing but messages",
 "In whichever locale the process runs - decimal commas, other digits, other letter cases, single-byte and multi-byte encodings - the same files, settings and keys give the same words in the same order, the same composed and delivered text, the same candidates and suggestions, the same consumed keys, the same learned and stored phrases, the same numerals, the same expansions of the date and time macros, and the same addresses for dictionary look-ups.",
 ["inputs", "histories", "configurations"], "every locale of the C library and of ICU, under every file, setting and key history", "The tests run in the C locale, while fcitx5 starts in the locale of the desktop; a function of the C library that follows it works in every test.",
 ["src/Engine/ParselessLM.cpp", "src/Engine/AssociatedPhrasesV2.cpp", "src/Engine/UserPhrasesLM.cpp", "src/Engine/Mandarin/Mandarin.cpp", "src/KeyHandler.cpp", "src/DictionaryService.cpp", "src/InputMacro.cpp", "src/McBopomofo.cpp"],
 [("scores", "ParselessLM::getUnigrams and getReadings, AssociatedPhrasesV2 GetScoreInRow"), ("keys", "BopomofoReadingBuffer::isValidKey and combineKey"), ("addresses", "DictionaryService.cpp urlEncode"), ("macros", "InputMacro.cpp CreateLocale")],
 ["states and callbacks of KeyHandler, the input context, files and launched addresses, with setlocale() and the ICU default varied"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w", encoding="utf-8") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
