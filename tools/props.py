# -*- coding: utf-8 -*-
"""The properties: statements, anchors, bounds of the checks."""

PROPS = []
NOT_APPLICABLE = {}


def P(id, title, statement, over, text, tests, files, mechanism, bounds, state=(), observe=()):
    anchors = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                   hook_needed=None)
    if state:
        anchors['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        anchors['observe_at'] = list(observe)
    PROPS.append(dict(id=id, title=title, statement=statement,
                      quantifier=dict(over=over, text=text), why_tests_cant=tests,
                      anchors=anchors, bounds=bounds))


W = ('Inputs are families of words with symbolic letters (dictionary words in any spelling, free words up to 3 '
     'letters (thorough 5), prefixed, suffix-predicted, particle, adverb and hyphen compounds, token shapes, their combinations, words '
     'of 12-40 letters with symbolic places, words with one arbitrary Unicode character at fifteen places) over a Russian dictionary with ten paradigms, one with 18 readings of one word, of one ending and a '
     'lexeme of 40 forms, and a Ukrainian one; both storage back ends. Outside: other dictionaries, longer '
     'free words. Trusted: the models of the DAWG library, of str and of sorting (sampled paths are re-run on the real '
     'interpreter and compared).')

P('C01', 'Every word gets at least one analysis, the fallback only when nothing fits',
  'Parsing or tagging any text token succeeds and returns at least one analysis with a tag, a word and a normal '
  'form. When no method recognizes the token the result is exactly one analysis marked unknown, whose word and normal '
  'form are the lower-cased token; a word of the dictionary never gets the unknown mark.',
  ['inputs', 'configurations'],
  'every token, with and without corpus probabilities',
  'Tests sample words; totality must hold over every combination of analysis methods and letters, including letters '
  'and shapes nobody thought of.',
  ['pymorphy2/analyzer.py', 'pymorphy2/units/unkn.py', 'pymorphy2/units/by_analogy.py', 'pymorphy2/units/by_hyphen.py',
   'pymorphy2/units/by_shape.py', 'pymorphy2/shapes.py'],
  [('method cascade', 'pymorphy2/analyzer.py MorphAnalyzer.parse, tag'),
   ('fallback', 'pymorphy2/units/unkn.py UnknAnalyzer'),
   ('recursive analysis of parts', 'pymorphy2/units/by_hyphen.py, by_analogy.py')],
  W + ' Additionally all Unicode words up to 2 characters (thorough 3) over a small dictionary.')

P('C02', 'Tagging reports the same tags as parsing',
  'The fast tagging interface reports exactly the tags that full parsing reports for the same word. For words of the '
  'dictionary they also come in the same order and number.',
  ['inputs', 'configurations'],
  'every word, with and without corpus probabilities',
  'Every analysis method implements tagging separately from parsing; a test compares them on a word list, not on all '
  'combinations of methods.',
  ['pymorphy2/analyzer.py', 'pymorphy2/units'],
  [('two implementations', 'parse and tag of every unit in pymorphy2/units'),
   ('ordering', 'pymorphy2/analyzer.py ProbabilityEstimator')],
  W)

P('C03', 'Scores are probabilities and analyses come ordered by them',
  'Every score lies between zero and one. When the dictionary has corpus probabilities for the word, scores are those '
  'probabilities and both analyses and tags are ordered from the most probable; when it has none, the scores are '
  'estimates that sum to one, ordered from the largest. Without a probability table, readings found in the dictionary '
  'have score one and every score is positive.',
  ['inputs', 'configurations'],
  'every word and every probability table',
  'Tests compare a few scores; normalization and order must hold for arbitrary tables, including zeros in the parts of '
  'compound words.',
  ['pymorphy2/analyzer.py', 'pymorphy2/dawg.py', 'pymorphy2/units/by_analogy.py'],
  [('estimator', 'pymorphy2/analyzer.py ProbabilityEstimator.apply_to_parses, apply_to_tags'),
   ('smoothed counts', 'pymorphy2/units/by_analogy.py KnownSuffixAnalyzer.parse'),
   ('table', 'pymorphy2/dawg.py ConditionalProbDistDAWG.prob')],
  W + ' Corpus probabilities of four ambiguous words are symbolic integers 0..1000000 (millionths). Scores are '
  'rational numbers in the model: float rounding is outside, comparisons of sums allow 1e-6.')

P('C04', 'Dictionary words get exactly their dictionary readings',
  'A word of the dictionary, in any letter case and with or without the dots of the replaced letter, is analysed '
  'exactly as the dictionary says: one analysis per stored reading, with the stored word, tag, normal form and all the '
  'forms of the stored lexeme, and no guessed readings. Only initials may be added, after them. A word is never given '
  'the readings of another dictionary word.',
  ['inputs'],
  'every word form and spelling variant of the dictionary, and every other word',
  'The lookup result is compared with the dictionary for some words in tests; the claim is exactness for all.',
  ['pymorphy2/units/by_lookup.py', 'pymorphy2/opencorpora_dict/wrapper.py', 'pymorphy2/analyzer.py'],
  [('lookup', 'pymorphy2/units/by_lookup.py DictionaryAnalyzer'),
   ('decoding of paradigms', 'pymorphy2/opencorpora_dict/wrapper.py Dictionary.build_normal_form, build_stem, '
    'build_tag_info, build_paradigm_info')],
  W)

P('C05', 'Normalization reaches the normal form and stays there',
  'Normalizing an analysis gives the first form of its lexeme, whose word is the reported normal form; normalizing '
  'again changes nothing, and every form of the lexeme has the same normal form. For compounds written with a hyphen '
  'only the agreement with the lexeme and idempotence are claimed.',
  ['inputs'],
  'every analysis of every word',
  'Normal forms are rebuilt by undoing and redoing every method that led to the analysis; a test list covers few of '
  'the combinations.',
  ['pymorphy2/analyzer.py', 'pymorphy2/units/base.py', 'pymorphy2/units/utils.py', 'pymorphy2/units/by_lookup.py'],
  [('normalized', 'pymorphy2/analyzer.py Parse.normalized; normalized of every unit'),
   ('undecorate and decorate', 'pymorphy2/units/base.py AnalogyAnalizerUnit, units/utils.py')],
  W)

P('C06', 'The lexeme contains the form and is the same from each of its forms',
  'The lexeme of an analysis contains the analysed form itself, and asking any form of a lexeme for its lexeme gives '
  'the same forms, tags and normal forms in the same order. Compounds written with a hyphen are the subject of C15.',
  ['inputs'],
  'every analysis of every word',
  'Inflection navigates between forms; the closure has to hold from every form of every analysis of every method.',
  ['pymorphy2/analyzer.py', 'pymorphy2/units'],
  [('get_lexeme', 'pymorphy2/analyzer.py MorphAnalyzer.get_lexeme; get_lexeme of every unit')],
  W)

P('C09', 'Analyses keep the letters of the word except the allowed replacement',
  'The word reported by an analysis has the letters of the lower-cased input, except that a letter with a configured '
  'replacement (е to ё in Russian, г to ґ in Ukrainian) may be restored to it. The replacement never goes the other '
  'way and no other letter changes.',
  ['inputs', 'configurations'],
  'every word, both languages',
  'Prefixes, endings and compounds are cut and glued back by length; only a claim over all words shows that nothing is '
  'lost on the way.',
  ['pymorphy2/units', 'pymorphy2/analyzer.py', 'pymorphy2/lang/ru/config.py', 'pymorphy2/lang/uk/config.py'],
  [('replacement in lookups', 'pymorphy2/units/by_lookup.py, by_analogy.py (similar_items)')],
  W)

P('C11', 'No analysis is reported twice',
  'Two analyses of a word differ in word, tag, normal form or lexeme, and the list of normal forms contains each of '
  'their normal forms once, in the order of the analyses. The tags given for a word outside the dictionary (a word with a '
  'particle has those of the word without it) contain no tag twice. Hyphen compounds may repeat a reading when their parts '
  'inflect differently.',
  ['inputs'],
  'every word',
  'Several methods and several splits can arrive at the same reading; duplicates appear only for words on which they '
  'meet.',
  ['pymorphy2/units/utils.py', 'pymorphy2/units/by_analogy.py', 'pymorphy2/analyzer.py'],
  [('seen parses', 'pymorphy2/units/utils.py add_parse_if_not_seen, by_analogy.py KnownSuffixAnalyzer.parse'),
   ('normal_forms', 'pymorphy2/analyzer.py MorphAnalyzer.normal_forms')],
  W)

P('C29', 'Plain results and pickled analyzers behave like the original',
  'An analyzer configured to return plain tuples gives the same analyses, lexemes, tags and normal forms as the '
  'default one, only unwrapped. An analyzer that was pickled and restored has the configuration of the original '
  '(dictionary, language, methods, letter replacements, probabilities, result type) and says the same about every word.',
  ['inputs', 'configurations'],
  'every word and configuration',
  'The two result types take different paths through parsing and inflection; tests pickle only the default analyzer.',
  ['pymorphy2/analyzer.py'],
  [('result_type', 'pymorphy2/analyzer.py MorphAnalyzer.parse, get_lexeme'),
   ('pickling', 'pymorphy2/analyzer.py MorphAnalyzer.__reduce__')],
  W + ' Pickling: eleven configurations, words of a pool of 17 (symbolic choice), protocols 0, 2, 4.')

P('C10', 'Membership and prefix iteration mirror the dictionary exactly',
  'A word is reported as known exactly when it is a word form of the compiled dictionary, '
  'compared after lower-casing and, unless exact spelling is requested, after the configured letter '
  'replacements of the dictionary side. Iterating known words with a prefix yields every dictionary '
  'reading whose word starts with the prefix, each exactly once, with the tag, normal form and '
  'paradigm the dictionary stores, and nothing else.',
  ['inputs', 'configurations'],
  'every query word, prefix and dictionary content, for both storage back ends',
  'Tests look up a handful of words of one dictionary; membership is a claim about all words, '
  'including the near misses one letter away from a stored word.',
  ['pymorphy2/analyzer.py', 'pymorphy2/opencorpora_dict/wrapper.py', 'pymorphy2/dawg.py'],
  [('word_is_known', 'pymorphy2/analyzer.py MorphAnalyzer.word_is_known, wrapper.py Dictionary.word_is_known'),
   ('prefix iteration', 'wrapper.py Dictionary.iter_known_words')],
  'Query words up to 4 letters over an alphabet with letters, the replaced letters, digits, hyphen, '
  'upper case, one or two arbitrary Unicode characters inside words; dictionaries with symbolic word spellings; is_known of analyses, normal forms and lexemes of the ten-paradigm dictionary; both back ends. Trusted: the model of the '
  'DAWG library (validated against the real one on sampled paths).')

P('C16', 'Token shapes are classified by their definitions',
  'A plain word (no hyphen, no known prefix) outside the dictionary is tagged as a number (integer or real), a Roman numeral, a Latin '
  'word or punctuation exactly when it is one by its written shape: an optional sign and digits, '
  'with an optional separator or exponent for reals; a well-formed numeral from 1 to 4999; only '
  'Latin letters among its letters and at least one; only punctuation and spaces with at least one '
  'mark. Such tokens keep their text as normal form and have themselves as their only form. In '
  'Russian a dictionary word is never reclassified by its shape; in Ukrainian, where Roman numerals '
  'and Latin words share letters with the language, its dictionary readings still come first.',
  ['inputs'],
  'every string of Unicode characters',
  'The shape tests list a few dozen strings; the definition ranges over all of Unicode (letters '
  'without names, digits of other scripts, line breaks at the end).',
  ['pymorphy2/shapes.py', 'pymorphy2/units/by_shape.py'],
  [('shape predicates', 'pymorphy2/shapes.py is_latin, is_punctuation, is_roman_number'),
   ('shape units', 'pymorphy2/units/by_shape.py check_shape, get_tag')],
  'Latin and punctuation predicates: all Unicode strings up to 3 characters (thorough 4), also inside longer fixed texts; Roman '
  'numerals: strings up to 4 (thorough 6) over Roman digits in both cases and others; numbers: up to '
  '4 (5) over digits, signs, separators, exponent, also with an arbitrary Unicode character inside; analyzer level up to 3 (4), and Unicode strings up to 2. Outside: lone '
  'surrogates, NUL, nan/inf and digit-group underscores, non-ASCII case folding in numerals.')

P('C17', 'A single capital letter is read as initials, and nothing else is',
  'A one-letter word that is a capital letter of the language alphabet gets exactly the '
  'singular readings of an abbreviated first name and patronymic (both genders, six cases) after '
  'any dictionary readings; its normal form and every form in its lexeme is the lower-cased letter, '
  'normalizing gives the nominative (masculine for patronymics). No other word gets such a reading.',
  ['inputs', 'configurations'],
  'every one-character Unicode word, longer words, both languages',
  'Tests check a few letters; the claim is over every character, and over which words must not be '
  'touched.',
  ['pymorphy2/units/abbreviations.py'],
  [('initials units', 'pymorphy2/units/abbreviations.py _InitialsAnalyzer')],
  'Every Unicode character as the word (Russian and Ukrainian), all pairs over capitals, small '
  'letters and marks, the empty word; both storage back ends.')

P('C18', 'Restored capitalization changes case only and follows the example',
  'Restoring capitalization never changes a word except for letter case. Each hyphen-separated part '
  'is written like the corresponding part of the example: lower, upper or title case when the '
  'example is, and lower case when the example is mixed, has no letters or has no such part.',
  ['inputs'],
  'every word and example',
  'The tests give a table of pairs; the alignment of parts and the mixed-case rule quantify over all '
  'pairs.',
  ['pymorphy2/shapes.py'],
  [('restore_capitalization', 'pymorphy2/shapes.py')],
  'Words and examples up to 3 characters (thorough 4) over Cyrillic and Latin letters in both '
  'cases, digits and hyphens; also inside longer fixed words; examples with an arbitrary Unicode character; the function and its older alias.')

P('C19', 'Tokenization is lossless and splits exactly at word boundaries',
  'Splitting a text into tokens loses nothing but whitespace: the concatenated tokens are the text '
  'without its whitespace. Maximal runs of letters, digits, underscores and hyphens are one token '
  'each, and every other non-space character is a token of its own.',
  ['inputs'],
  'every Unicode text',
  'Two dozen sample sentences are tested; the partition must hold for every text.',
  ['pymorphy2/tokenizers.py'],
  [('simple_word_tokenize', 'pymorphy2/tokenizers.py')],
  'All Unicode texts up to 4 characters (thorough 6), also inside longer fixed texts. Outside: lone surrogates and NUL.')

P('C07', 'Inflection returns the closest form with the requested grammemes',
  'Inflecting a form returns a form of its own lexeme that has every requested grammeme, and among those one that '
  'shares the most grammemes with the original and adds the fewest others, the first of the lexeme on ties. When no '
  'form has the requested grammemes the rare cases among them are replaced by common ones; when that does not help '
  'either the answer is None. Unknown grammemes are an error. The original analysis is not changed.',
  ['inputs'],
  'every lexeme, original form and set of requested grammemes',
  'Tests inflect selected words; optimality is a claim over all sets of grammemes and all lexemes, also those with '
  'several equally close forms.',
  ['pymorphy2/analyzer.py', 'pymorphy2/tagset.py'],
  [('choice of the form', 'pymorphy2/analyzer.py MorphAnalyzer._inflect, Parse.inflect'),
   ('grammemes after inflection', 'pymorphy2/tagset.py OpencorporaTag.updated_grammemes, fix_rare_cases')],
  'Lexemes of three or four forms whose number and case grammemes are symbolic; requested sets of one or two symbolic '
  'grammemes, also among fifteen other forms; every form of the ten-paradigm dictionary and of guessed and compound words. Outside: larger requested '
  'sets, longer lexemes with more symbolic forms (lexemes with more than twenty suitable forms: fixed grammemes).')

P('C08', 'A word agrees with every number by the rules of the language',
  'Agreeing with a number gives the form the grammar asks for. Nouns in the nominative or accusative take the singular '
  'of their case with 1, 21, 31 and the like but not 11, the genitive singular with 2 to 4, 22 to 24 and the like but '
  'not 12 to 14, otherwise the genitive plural; in other cases they keep the case and take the singular or plural. '
  'Adjectives and participles in the nominative or accusative take the singular with 1 and the like, the nominative '
  'plural with 2 to 4 and the like when feminine, otherwise the genitive plural. Other words do not change.',
  ['inputs'],
  'every non-negative integer, part of speech and case',
  'A test lists some numbers; the rule has exceptions (11 to 14 in every hundred) and must hold for every integer.',
  ['pymorphy2/analyzer.py', 'pymorphy2/tagset.py'],
  [('agreement grammemes', 'pymorphy2/tagset.py OpencorporaTag.numeral_agreement_grammemes'),
   ('inflection', 'pymorphy2/analyzer.py Parse.make_agree_with_number')],
  'Grammemes: all integers >= 0 (unbounded in the encoding), symbolic case (rare ones included), number, gender and animacy, other grammemes. Inflection: all integers '
  'with the nouns, adjectives, participles and verbs of small dictionaries. Adjectives only in the nominative and '
  'accusative. Outside: negative numbers, floats.')

P('C12', 'Unknown words get the readings of the longest known ending',
  'A word that no other method explains is analysed by its longest ending (up to the length limit) for which the '
  'dictionary has prediction data and a productive reading: exactly the productive readings stored for that ending, '
  'once per word, tag and paradigm, the most frequent first, scored by smoothed relative frequency and halved. Forms '
  'and normal form are made by changing the ending and the paradigm prefix only. Words shorter than four letters are '
  'not guessed this way.',
  ['inputs', 'configurations'],
  'every word and every prediction table',
  'Prediction depends on the longest of nested endings, on ties between counts and on paradigm prefixes; a test word '
  'list meets few of the combinations.',
  ['pymorphy2/units/by_analogy.py', 'pymorphy2/opencorpora_dict/wrapper.py', 'pymorphy2/dawg.py'],
  [('prediction', 'pymorphy2/units/by_analogy.py KnownSuffixAnalyzer.parse, tag'),
   ('suffix splits', 'KnownSuffixAnalyzer.init, FakeDictionary')],
  'Words: 11 stems or up to 3 free letters before 16 endings; the counts of the matching endings are symbolic '
  '1..65535; both storage back ends; tables in which the productivity of the readings differs; 18 readings of one ending; words with hyphens, digits and an arbitrary Unicode character.')

P('C13', 'A word with a prefix is read like the word without it',
  'A word that starts with a known prefix (the longest first) and continues with at least three letters gets exactly '
  'the productive readings of the remainder with the prefix put back on the word, the normal form and every form of '
  'the lexeme, scored 0.75 of the remainder. A word that starts with up to five other letters before a dictionary word '
  'of at least three letters gets its productive dictionary readings in the same way, scored 0.5. The list of known '
  'prefixes of a word is exactly the prefixes of the list it starts with.',
  ['inputs'],
  'every prefix, remainder and prefix list',
  'Prefix splitting is a claim about all cuts of all words, overlapping prefixes included.',
  ['pymorphy2/units/by_analogy.py', 'pymorphy2/dawg.py', 'pymorphy2/utils.py'],
  [('known prefixes', 'pymorphy2/units/by_analogy.py KnownPrefixAnalyzer, dawg.py PrefixMatcher'),
   ('unknown prefixes', 'UnknownPrefixAnalyzer, utils.word_splits')],
  'Known prefixes of the Russian list (a sample of them with overlaps) with remainders of all kinds and up to 4 free '
  'letters; an arbitrary Unicode character in the prefix or the remainder; 0 to 6 free letters before dictionary words; prefix matcher: sets of four symbolic prefixes, all words up '
  'to 3 letters (thorough 4); both storage back ends.')

P('C14', 'Particles and the prefix of adverbs attach to the analyses of the word',
  'A word outside the dictionary that ends with a hyphenated particle gets exactly the analyses of the word before the '
  'particle, with the particle attached to the word, the normal form and every form, scored 0.9 of it. A word outside '
  'the dictionary that starts with the hyphenated adverb prefix before something read as a singular dative adjective is '
  'exactly one unchangeable adverb with score 0.7. Nothing else gets these readings.',
  ['inputs'],
  'every word before every particle, every word after the prefix',
  'The interplay with the other methods (unknown, prefixed and compound words under the particle) is not sampled by '
  'tests.',
  ['pymorphy2/units/by_hyphen.py', 'pymorphy2/lang/ru/config.py'],
  [('particles', 'pymorphy2/units/by_hyphen.py HyphenSeparatedParticleAnalyzer'),
   ('adverbs', 'HyphenAdverbAnalyzer')],
  'All eight particles and two lookalikes after 29 words of every kind; adverbs of all words of the dictionary, of '
  'guessed words, of readings of every case and number, and of 4 free letters; words with several hyphens before the particle; an arbitrary Unicode character at ten places; both storage back ends.')

P('C15', 'A hyphen compound combines the readings of its two parts',
  'A word with exactly one hyphen inside that is not explained otherwise gets, for each pair of readings of its parts '
  'with the same part of speech, number, case, person and tense, a reading in which both parts inflect together, and '
  'for each known reading of the right part a reading in which the left part stays fixed, scored 0.75 of the part that '
  'gives the tag. Every form of the first kind joins a form of the right part with the closest form of the left one.',
  ['inputs'],
  'every pair of words',
  'Pairing of readings and alignment of forms depend on both lexemes; tests list compounds, not combinations of tags.',
  ['pymorphy2/units/by_hyphen.py', 'pymorphy2/units/utils.py'],
  [('compounds', 'pymorphy2/units/by_hyphen.py HyphenatedWordsAnalyzer')],
  'Eight groups of left parts times 22 right parts of every kind, an arbitrary Unicode character at four places, parts with 18 readings and 40 forms; lexemes of two forms with symbolic number and case; '
  'hyphen placement: all words up to 5 letters (thorough 7) over letters and hyphens; both storage back ends.')

P('C20', 'Tags behave as values',
  'Tags made from the same grammemes in the same order are equal, hash alike and are the same dictionary key; tags of '
  'different grammemes differ; tags are totally ordered. Text, equality and grammemes survive pickling and re-creation '
  'from the text.',
  ['inputs'],
  'all pairs and triples of tags',
  'Equality, ordering and hashing are laws over pairs and triples of values.',
  ['pymorphy2/tagset.py'],
  [('comparison', 'pymorphy2/tagset.py OpencorporaTag.__eq__, __ne__, __lt__, __gt__, __hash__, __reduce__')],
  'Tags of up to three (thorough four) symbolic grammemes of a pool of twelve with a symbolic place of the space, also with nine and twelve fixed ones around; '
  'transitivity: up to two (three) grammemes of a pool of four.')

P('C21', 'Tag membership and attributes say what the tag contains',
  'A grammeme is in a tag exactly when it is one of the tag\'s grammemes, a set of grammemes when all of them are. Each '
  'grammatical attribute is the grammeme of its category that the tag has, or None. Asking for, constructing a tag '
  'from, or comparing an attribute with grammemes that do not exist (or belong to another category) is an error.',
  ['inputs'],
  'every tag, grammeme and set of grammemes',
  'Tests sample tags; misplaced grammemes (in the second group, several of one category) are rarely among them.',
  ['pymorphy2/tagset.py'],
  [('membership', 'pymorphy2/tagset.py OpencorporaTag.__contains__'),
   ('attributes', '_select_grammeme_from, TypedGrammeme'),
   ('validation', 'OpencorporaTag.__init__, _assert_grammemes_are_known')],
  'Tags of up to three (thorough four) symbolic grammemes, also with up to twelve fixed ones around; queried grammemes: all of the 70 known ones and six unknown '
  'ones; sets up to three, also larger than the tag; attributes: all twelve categories.')

P('C22', 'Required grammemes replace exactly the conflicting ones',
  'Updating the grammemes of a tag with required ones gives a set with all the required grammemes from which exactly '
  'the grammemes they exclude are dropped: those of the same category and, for the plural, genders; the tag itself does '
  'not change. Rare cases are replaced by their common counterparts and nothing else is.',
  ['inputs'],
  'every tag and set of required grammemes that do not exclude each other',
  'Categories are nested (gen2 under gent under case); a claim over all pairs of grammemes.',
  ['pymorphy2/tagset.py'],
  [('update', 'pymorphy2/tagset.py OpencorporaTag.updated_grammemes'),
   ('incompatible grammemes', 'OpencorporaTag._init_restrictions'),
   ('rare cases', 'fix_rare_cases')],
  'Tags of one or two symbolic grammemes (thorough three), one or two required ones, three pools of seven grammemes, also '
  'with up to nine others in the tag.')

P('C23', 'Translating grammemes between alphabets is lossless',
  'The Cyrillic form of a tag translates each grammeme to its alias and keeps order and separators; translating back '
  'gives the tag. In arbitrary grammeme strings known grammemes are translated and everything else is kept.',
  ['inputs'],
  'every tag and grammeme string',
  'Translation is a claim about all grammemes in all positions.',
  ['pymorphy2/tagset.py'],
  [('translation', 'pymorphy2/tagset.py OpencorporaTag.cyr2lat, lat2cyr, _translate_tag, cyr_repr')],
  'Tags of one or two (thorough three) symbolic grammemes out of all 70, also in tags of fourteen; strings of one to three (four) tokens with '
  'symbolic separators, also after eight fixed ones.')

P('C24', 'Compiling a dictionary preserves its lexicon',
  'After a parsed dictionary is compiled, saved and loaded, it has exactly the forms of the source: every form with '
  'its tag, the first form of its lexeme as the normal form, and all the forms of the lexeme in order; nothing is '
  'added, lost or duplicated. Lexemes joined by links of joinable types become one lexeme of the link\'s start; '
  'lexemes that are not linked, or linked by excluded types, stay apart.',
  ['inputs'],
  'every set of lexemes and links',
  'Stems, prefixes and suffixes are inferred from the forms; tests compile one toy dictionary.',
  ['pymorphy2/opencorpora_dict/compile.py', 'pymorphy2/opencorpora_dict/storage.py',
   'pymorphy2/opencorpora_dict/wrapper.py', 'pymorphy2/utils.py'],
  [('paradigms', 'pymorphy2/opencorpora_dict/compile.py compile_parsed_dict, _to_paradigm, _linearized_paradigm'),
   ('links', '_join_lexemes'), ('stems', 'pymorphy2/utils.py longest_common_substring'),
   ('files', 'pymorphy2/opencorpora_dict/storage.py save_compiled_dict, load_dict'),
   ('forms', 'pymorphy2/opencorpora_dict/wrapper.py Dictionary')],
  'One or two lexemes of one to three forms with all letters (up to four per form) symbolic over four letters and '
  'symbolic tags; lexemes with an arbitrary character at five places; forms with a common stem and paradigm prefixes; three lexemes with one or two (thorough three) '
  'symbolic links of ten types; a dictionary of 300 paradigms, ten paradigms with the same first form, a lexeme of 300 forms. How a lexeme with several parents is joined is outside (only that nothing is lost).')

P('C25', 'Prediction data counts the words of the dictionary',
  'For each paradigm prefix the compiled prediction data maps an ending to the most frequent analyses of each part of '
  'speech (all of them on ties) with the number of dictionary words that have this ending and are analysed so; endings '
  'are at least as long as the form\'s suffix and at most max_suffix_length. Paradigms with fewer lexemes than '
  'min_paradigm_popularity, words that are only prefix and suffix, and endings met fewer than min_ending_freq times '
  'do not contribute rules.',
  ['inputs', 'configurations'],
  'every dictionary and compile options',
  'The data depend on coincidences of endings between words; tests do not look at the counts.',
  ['pymorphy2/opencorpora_dict/compile.py', 'pymorphy2/utils.py'],
  [('counting', 'pymorphy2/opencorpora_dict/compile.py _suffixes_prediction_data, _get_suffixes_dawg_data, _popular_keys'),
   ('the most frequent', 'pymorphy2/utils.py largest_elements')],
  'One to three (thorough four) lexemes of five kinds of paradigms with symbolic stems of one or two letters (five for '
  'a single lexeme), both thresholds symbolic integers, max_suffix_length 1 to 3.')

P('C26', 'Simplifying tags keeps their meaning and leaves one spelling',
  'Before compilation every tag is replaced by a tag of the same grammemes (loc1, gen1, acc1 become the common case '
  'grammemes and never stay); when one set of grammemes has rival spellings all its tags get the most frequent of them; '
  'words, their order and lexemes do not change. Forms of initials, and only they, are dropped.',
  ['inputs'],
  'every multiset of tags',
  'Which spelling wins depends on counts over the dictionary.',
  ['pymorphy2/opencorpora_dict/preprocess.py'],
  [('spellings', 'pymorphy2/opencorpora_dict/preprocess.py simplify_tags, _get_tag_spellings, _get_duplicate_tag_replaces'),
   ('initials', 'drop_unsupported_parses')],
  'Up to four (thorough five) words with symbolic tags out of three pools of five spellings; rival means that the '
  'spellings do not all differ in the position of the space, as documented in _is_ambiguous.')

P('C27', 'Saved dictionaries are loaded as they were saved',
  'Everything a compiled dictionary holds (tags, suffixes, paradigms, words, prediction data, prefixes, options, source '
  'and counts in the metadata) is the same after saving and loading. Updating metadata changes only the given keys; '
  'dictionaries of another major format version, or without a valid one, are refused with an error, all others are loaded. '
  'Converting never touches an existing folder unless overwriting is requested.',
  ['inputs', 'configurations'],
  'every dictionary, format version, metadata update and state of the output folder',
  'Tests load one prebuilt dictionary; the format gate, the metadata and the overwrite rule have no tests over values.',
  ['pymorphy2/opencorpora_dict/storage.py', 'pymorphy2/opencorpora_dict/compile.py', 'pymorphy2/utils.py', 'pymorphy2/dawg.py'],
  [('files', 'pymorphy2/opencorpora_dict/storage.py save_compiled_dict, load_dict, _load_paradigms'),
   ('format version', '_assert_format_is_compatible'), ('metadata', 'load_meta, write_meta, update_meta'),
   ('output folder', 'pymorphy2/opencorpora_dict/compile.py convert_to_pymorphy2, _create_out_path')],
  'Dictionaries of one or two lexemes with symbolic forms (up to three letters) and tags; format versions of up to two '
  'symbolic characters on each side of the dot; up to two symbolic metadata updates (numbers, None, False, empty values); existing folder and overwrite flag. '
  'Outside: format versions with several dots, the Cyrillic tag table.')

P('C28', 'The command line prints exactly the requested results for every token',
  'Parsing text from the command line writes one result for each token, in order: the token and, in braces, the requested '
  'parts (normal form, score, tag) of all its analyses that reach the threshold; when only normal forms are requested, '
  'each one once, by the sum of its scores. Cache size, input from a file or from standard input, and separators do not '
  'change the results; requesting nothing to print is an error. `dict meta` prints every entry of the metadata of the dictionary.',
  ['inputs', 'configurations'],
  'every text and combination of options',
  'Tests run one command on one text; the eight combinations of options use separate code.',
  ['pymorphy2/cli.py', 'pymorphy2/cache.py'],
  [('formatting', 'pymorphy2/cli.py _TokenParserFormatter'), ('tokens', '_iter_tokens_tokenize, _iter_tokens_notokenize'),
   ('cache', 'pymorphy2/cache.py lru_cache, memoized_with_single_argument'), ('command line', 'pymorphy2/cli.py main')],
  'All combinations of options, five thresholds, words of a pool of 19; caches: three words of a pool of nine, six sizes, also texts of fifteen tokens and six calls of the cached functions; '
  'tokens: lines with three (thorough four) symbolic or two arbitrary Unicode characters; metadata with symbolic values. Outside: docopt itself (run as it is), '
  'dict mem_usage, parse -v.')

P('C30', 'Analyzers in one process are independent of each other',
  'Creating and using another analyzer (of another dictionary, language or configuration) does not change what an analyzer '
  'says about any word: analyses, lexemes, membership, inflection, agreement with numbers, translation of grammemes.',
  ['histories', 'configurations'],
  'every order of creation and every pair of analyzers',
  'Tests use one shared analyzer; module and class level state is invisible to them.',
  ['pymorphy2/analyzer.py', 'pymorphy2/tagset.py', 'pymorphy2/units/base.py'],
  [('analysis units are copied', 'pymorphy2/units/base.py BaseAnalyzerUnit.clone, pymorphy2/analyzer.py MorphAnalyzer._bound_unit'),
   ('tag class', 'pymorphy2/tagset.py OpencorporaTag._init_grammemes')],
  'Words of a pool of 24 (symbolic); a second analyzer of another language whose dictionary has the same, more, fewer or '
  'differently organised grammemes, created before or after; two configurations of one dictionary. Known finding: '
  'grammemes of dictionaries loaded later.')

P('C31', 'The dictionary and the language are chosen by documented rules',
  'The dictionary is the one at the given path, else the one named by PYMORPHY2_DICT_PATH, else the installed one of the '
  'requested language (Russian by default); when there is none the error names the language. The language is the requested '
  'one, else the one the dictionary declares, and selects letter replacements and particles; a mismatch, a missing or an '
  'unknown language is only a warning.',
  ['configurations'],
  'every combination of arguments, environment, installed packages and declared languages',
  'Tests run with one installed dictionary and default arguments.',
  ['pymorphy2/analyzer.py', 'pymorphy2/lang/__init__.py', 'pymorphy2/lang/ru/__init__.py', 'pymorphy2/lang/uk/__init__.py'],
  [('path', 'pymorphy2/analyzer.py MorphAnalyzer.choose_dictionary_path, lang_dict_path'),
   ('language', 'MorphAnalyzer.choose_language, _lang_default'),
   ('language configuration', 'pymorphy2/lang')],
  'All combinations of four paths, three values of the variable, six languages, three sets of installed packages, the '
  'old package of dictionaries present or not; words of four letters in each spelling.')

P('C32', 'Answers do not depend on earlier questions',
  'What an analyzer says about a word is the same whatever was asked before, however often, and after the caller has '
  'changed the lists that were returned.',
  ['histories', 'inputs'],
  'every sequence of words',
  'Tests ask in one order and never change the returned lists; stale caches and shared lists need particular histories.',
  ['pymorphy2/analyzer.py', 'pymorphy2/units/base.py', 'pymorphy2/tagset.py', 'pymorphy2/opencorpora_dict/wrapper.py'],
  [('analyzer', 'pymorphy2/analyzer.py MorphAnalyzer'), ('seen analyses', 'pymorphy2/units/utils.py add_parse_if_not_seen'),
   ('lazy tag attributes', 'pymorphy2/tagset.py OpencorporaTag')],
  'Two words of a pool of 40 chosen symbolically (with and without corpus probabilities), and two free words of two or '
  'three letters (thorough four); all ordered pairs of the pool, and the whole pool asked in both directions before a word; every answer compared with that of a fresh process; both storage back ends.')

P('C33', 'P(tag|word) estimates follow the corpus counts',
  'For an ambiguous word met at least the given number of times with a single reading in the corpus, the stored '
  'probability of each of its tags is (count + 1) / (total + number of outcomes); words compare in lower case, unknown '
  'readings do not count, and words met too rarely or without preference for any tag get no estimate. '
  'Scores of analyses then follow these estimates and the other metadata of the dictionary stay.',
  ['inputs', 'configurations'],
  'every corpus and minimal frequency',
  'No test runs the estimation (NLTK and a corpus are needed).',
  ['pymorphy2/opencorpora_dict/probability.py', 'pymorphy2/dawg.py', 'pymorphy2/analyzer.py'],
  [('counts', 'pymorphy2/opencorpora_dict/probability.py estimate_conditional_tag_probability'),
   ('stored table', 'build_cpd_dawg, pymorphy2/dawg.py ConditionalProbDistDAWG'),
   ('scores', 'pymorphy2/analyzer.py ProbabilityEstimator')],
  'Corpora of two fixed and up to two (thorough three) symbolic words (seven spellings, six tags, zero to two readings), words with equal tags, '
  'minimal frequency 1 or 2 (3), also with hundreds of occurrences; precision 2e-6. NLTK and opencorpora-tools are replaced by stand-ins written from '
  'their documentation.')

P('C34', 'Reading OpenCorpora XML loses nothing',
  'Each lexeme of the XML dictionary is read as the list of its forms in order, in lower case, each with the common '
  'grammemes, a space and its own ones; deleted lexemes are empty, and a lexeme with a form that has no grammemes is '
  'dropped. Links, grammemes, version and revision are read as written, and a converted dictionary has exactly these '
  'lexemes.',
  ['inputs', 'configurations'],
  'every dictionary file, with either XML library',
  'Tests read one toy file; elements are cleared while they are read, which can lose what is still needed.',
  ['pymorphy2/opencorpora_dict/parse.py', 'pymorphy2/opencorpora_dict/compile.py'],
  [('lexemes', 'pymorphy2/opencorpora_dict/parse.py _word_forms_from_xml_elem, _grammemes_from_elem'),
   ('reader', 'parse_opencorpora_xml, get_dictionary_info, xml_clear_elem')],
  'Lexemes of up to two (thorough three) forms of two symbolic letters of either case and symbolic sets of grammemes (repeated ones included), up '
  'to two symbolic links, two symbolic grammemes; models of lxml and ElementTree (sampled paths run on the real ones); a file of '
  '1500 lexemes.')

P('C35', 'An analyzer can be used from several threads',
  'Threads that share an analyzer, or create analyzers of the same dictionary, get the answers that each of them would '
  'get alone.',
  ['schedules'],
  'every interleaving of threads',
  'Tests are single-threaded; state that is shared by accident shows only when a thread is interrupted at one place.',
  ['pymorphy2/analyzer.py', 'pymorphy2/tagset.py', 'pymorphy2/units/base.py', 'pymorphy2/units/by_analogy.py',
   'pymorphy2/units/by_hyphen.py'],
  [('lock around loading', 'pymorphy2/analyzer.py MorphAnalyzer._lock'),
   ('parsing', 'MorphAnalyzer.parse, tag'), ('tables of the tag class', 'pymorphy2/tagset.py OpencorporaTag._init_grammemes'),
   ('lazy tag attributes', 'OpencorporaTag.grammemes, cyr_repr')],
  'Two threads and a small dictionary; a thread is interrupted before any statement of pymorphy2 (the statement is '
  'symbolic) and the other one runs to its end, or two interruptions at entries of functions; fixed words that reach '
  'every analyzer unit, the same dictionary in both threads. Counterexamples run on PyPy with the same yield points '
  'inserted. Outside: interruptions within a statement, more threads or interruptions, different dictionaries (C30).')

P('C36', 'Analysis units and the probability estimator are combined as configured',
  'The units given to an analyzer (any, also written by the user) are asked in order, all units of a nested list are asked, '
  'and the analyses are those found up to the first unit or whole nested list after which there are any; tags and normal '
  'forms follow the same rule, and lexemes and normalized forms come from the unit that made the analysis. The given unit '
  'objects are copied and can be used again. A given probability estimator class gets the word and the final analyses (or '
  'tags) and what it returns is what the user gets; None means the scores of the units; by default corpus probabilities '
  'are used exactly when the dictionary has them.',
  ['configurations', 'inputs'],
  'every arrangement of units, every result of a unit, every estimator, every word',
  'Tests use the default arrangement only, with one dictionary that has probabilities.',
  ['pymorphy2/analyzer.py', 'pymorphy2/units/base.py', 'pymorphy2/units/utils.py'],
  [('arrangement', 'pymorphy2/analyzer.py MorphAnalyzer._init_units, parse, tag'),
   ('copies', 'MorphAnalyzer._bound_unit, pymorphy2/units/base.py BaseAnalyzerUnit.clone'),
   ('estimator', 'MorphAnalyzer._get_prob_estimator, parse, tag')],
  'Arrangements of up to seven units of a user with symbolic numbers of readings, symbolic words of one or two '
  'characters; nine arrangements of the units of pymorphy2 and three estimators with words of a symbolic pool; with and '
  'without corpus probabilities; both storage back ends.')

P('C37', 'A dictionary built from XML makes the analyzer answer by that XML',
  'After an OpenCorpora XML file is converted and loaded, a word of the file gets exactly the readings of the lexemes '
  '(united by their links) that contain it, each with its tag, its normal form and the complete lexeme, whatever the spelling '
  'of the letters the language lets one replace; a word outside the file is not known, and its readings are exactly those '
  'of the known words it ends with and of the productive paradigms which the endings of the words of the file support under the '
  'chosen thresholds; when there are none it is unknown.',
  ['inputs', 'configurations'],
  'every file, link, threshold and word',
  'Tests convert one small fixture and look at the compiled data; analysis is tested with the published dictionary only, so '
  'disagreements between the builder and the analyzer show up only for dictionaries nobody tried.',
  ['pymorphy2/opencorpora_dict/parse.py', 'pymorphy2/opencorpora_dict/compile.py', 'pymorphy2/opencorpora_dict/preprocess.py',
   'pymorphy2/opencorpora_dict/storage.py', 'pymorphy2/opencorpora_dict/wrapper.py', 'pymorphy2/units/by_lookup.py',
   'pymorphy2/units/by_analogy.py', 'pymorphy2/analyzer.py'],
  [('building', 'pymorphy2/opencorpora_dict/compile.py convert_to_pymorphy2'),
   ('loading', 'pymorphy2/opencorpora_dict/storage.py load_dict'),
   ('lookup and prediction', 'pymorphy2/units/by_lookup.py DictionaryAnalyzer, pymorphy2/units/by_analogy.py KnownSuffixAnalyzer, '
    'UnknownPrefixAnalyzer')],
  'Two or three lexemes of seven kinds with symbolic stems of one or two letters, a link of a symbolic type, thresholds 1-2, '
  'longest ending 2 or 5; words of two or three symbolic letters and an ending of a pool; spelling: forms of two or three letters '
  'out of three; up to five lexemes (six in the thorough '
  'tier) united by every tree of links in varied orders, one of twelve forms. Built with the C extension (dawg-python cannot build).')
