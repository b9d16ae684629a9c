"""The properties, and how each is decided."""
ENGINE = ("obligations over an abstract interpretation of the type-checked MIR (all paths of the function and of its "
          "callees, values as exact terms over the inputs)")
TRUST = ("Trusts the models of the standard library and of the external crates (replaced by signature-only stand-ins for "
         "type-checking) in analysis/models.py; an obligation the analysis cannot settle is reported as inconclusive, not as held.")
PROPS = []
NA = {}


def prop(id, title, statement, over, quant, why, files, mech, technique, note, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      technique=technique, note=note, observe=observe))


prop("C01", "The intents filter is respected by every parser and every branch",
     "When a caller restricts parsing to a set of intents, no result, alternative or classification carries an intent outside "
     "that set, whatever parser or branch produced it. Without a restriction every trained intent is allowed; an empty list of "
     "excluded intents excludes none, an empty list of allowed ones allows none.",
     ["inputs", "configurations"],
     "Every input text, every trained model (including degenerate ones with no intent or a single intent) and every filter.",
     "The tests pass a handful of filters to a handful of sentences; that no branch of any parser bypasses the filter is a "
     "statement over all of them.",
     ["src/nlu_engine.rs", "src/intent_classifier/log_reg_intent_classifier.rs", "src/intent_parser/deterministic_intent_parser.rs",
      "src/intent_parser/lookup_intent_parser.rs", "src/intent_parser/probabilistic_intent_parser.rs"],
     [("whitelist computed from whitelist and blacklist", "src/nlu_engine.rs parse_with_alternatives"),
      ("is_allowed filters", "src/intent_classifier/log_reg_intent_classifier.rs"),
      ("skip of filtered intents", "src/intent_parser/*.rs")],
     ENGINE + "; each produced intent must be shown to be in the filter or produced by a callee given the same filter",
     "All paths of every parser and classifier entry point. " + TRUST)

prop("C02", "Unknown intent and slot names are rejected before any parsing",
     "A request naming an intent unknown to the trained assistant, in either filter list or as the intent whose slots are wanted, "
     "ends in an error and never in an empty or partial result. Requests naming only known intents are not rejected by that test.",
     ["inputs", "configurations"],
     "Every trained assistant, every input text, every pair of filter lists and every intent name.",
     "The tests name one unknown intent; that all positions of both lists and all parsers are covered quantifies over every list.",
     ["src/nlu_engine.rs", "src/intent_parser/deterministic_intent_parser.rs", "src/intent_parser/lookup_intent_parser.rs",
      "src/intent_parser/probabilistic_intent_parser.rs"],
     [("validation of both lists", "src/nlu_engine.rs parse_with_alternatives"), ("unknown intent errors", "src/intent_parser/*.rs get_slots")],
     ENGINE + "; membership of every element of both lists is a fact on every successful path",
     "All paths of the public entry points. " + TRUST)

prop("C03", "Entry points agree, and alternatives extend the result consistently",
     "The simple parsing and slot entry points return exactly what the general ones return with no alternatives. Alternatives are at "
     "most as many as asked, are the following entries of the ranked intents, in order, never repeat the intent of the result, "
     "and carry the slots of their own intent. The result repeats the caller's input.",
     ["inputs", "configurations"],
     "Every input text, filter and pair of alternative counts, on every trained assistant.",
     "Tests compare one sentence; the agreement is between two functions on every input.",
     ["src/nlu_engine.rs"],
     [("delegation with 0", "src/nlu_engine.rs parse, get_slots"), ("alternatives pipeline", "src/nlu_engine.rs parse_with_alternatives")],
     ENGINE + "; delegation is decided by comparing the returned terms, alternatives by the exact terms of their fields",
     "All paths of the four entry points. " + TRUST)

prop("C04", "Intent rankings are complete, duplicate free and in descending order",
     "The ranking of intents for a text is sorted by descending confidence and lists every trained intent and the absence of an intent "
     "exactly once. When several parsers rank an intent, its best score is kept.",
     ["inputs", "configurations"],
     "Every input text and every trained model.",
     "Tests look at rankings of models with two or three intents; order and completeness quantify over all models and texts.",
     ["src/nlu_engine.rs", "src/intent_classifier/log_reg_intent_classifier.rs", "src/intent_parser/deterministic_intent_parser.rs",
      "src/intent_parser/lookup_intent_parser.rs"],
     [("sorted_by on the score", "src/nlu_engine.rs get_intents"), ("matched then unmatched then none", "src/intent_parser/*.rs get_intents")],
     ENGINE + "; sort keys and directions, generator sets of the returned lists, and map keys are read from the terms",
     "All paths of the ranking functions of the engine, the classifier and the parsers. " + TRUST)

prop("C05", "The first parser that answers decides, in the trained order",
     "The result of parsing a text is that of the first parser of the trained list, walked in its order, that finds an intent; its "
     "intent and slots come from that single answer, and no intent is answered only after every parser was asked and found none, "
     "with the confidence the last one gave. "
     "The slots of a given intent are those of the first parser that finds any. Loading keeps the order of the trained list and "
     "gives each position the unit trained for it.",
     ["inputs", "configurations"],
     "Every input text, filter and trained list of parsers of any length.",
     "The tests use models with at most two parsers; precedence quantifies over all lists and all answers of the parsers.",
     ["src/nlu_engine.rs"],
     [("loop over intent_parsers", "src/nlu_engine.rs parse_with_alternatives"), ("slots loop", "src/nlu_engine.rs get_slots_with_alternatives"),
      ("loading of parsers", "src/nlu_engine.rs from_path")],
     ENGINE + "; each returned result is traced to one call on one element of the list, by order terms and exhaustion facts",
     "All paths of parsing, slot filling and loading in the engine. Parsers' own answers are opaque here (C06). " + TRUST)

prop("C06", "Each parser answers only intents it is certain enough of, with their own slots",
     "A table parser answers an intent exactly when its share of the matches exceeds one half, the share being the weight 1/(1+slots) "
     "over the sum of the weights of all matches, and otherwise answers no intent, with confidence one and no slots. The "
     "probabilistic parser answers the classifier's intent with the slots that the filler trained for that very intent finds in "
     "the same text. Asked for the slots of one intent, every parser gives slots found in that text for that very intent.",
     ["inputs", "configurations"],
     "Every input text, filter and trained model, whatever the number of matching intents.",
     "The tests sample a few texts; the threshold, the weights and the pairing of intent and filler hold for every set of matches.",
     ["src/intent_parser/deterministic_intent_parser.rs", "src/intent_parser/lookup_intent_parser.rs",
      "src/intent_parser/probabilistic_intent_parser.rs"],
     [("ambiguity threshold and weights", "src/intent_parser/deterministic_intent_parser.rs parse, parse_top_intents"),
      ("ambiguity threshold and weights", "src/intent_parser/lookup_intent_parser.rs"),
      ("filler lookup by intent", "src/intent_parser/probabilistic_intent_parser.rs")],
     ENGINE + "; threshold facts on every path with an intent, symbolic slope of the weight, key of the filler lookup",
     "All paths of the three parsers. " + TRUST)

prop("C07", "Classification confidences are proper and belong to their intent",
     "Every confidence the classifier answers lies between zero and one for every decision value, grows with the decision value of "
     "its own intent, and is attached to the intent at the same position of the trained list; with two classes they sum to one. "
     "No trained intent is left out for its score. An only intent, or without a decision function or input the absence of intent, has all "
     "the confidence; the answered intent is the head of the ranking for the same text and filter.",
     ["inputs", "configurations"],
     "Every input text and every trained weight matrix of any number of intents and features, including extreme decision values.",
     "The tests compare a few predictions with an epsilon; range, direction and pairing quantify over all real decision values.",
     ["src/intent_classifier/logreg.rs", "src/intent_classifier/log_reg_intent_classifier.rs"],
     [("logit and binary case", "src/intent_classifier/logreg.rs run"), ("intercept row", "src/intent_classifier/logreg.rs new"),
      ("zip of names and scores", "src/intent_classifier/log_reg_intent_classifier.rs get_intents_with_whitelist")],
     "interval and monotonicity analysis of the exact confidence terms from the abstract interpretation of the MIR, with order "
     "terms for the pairing and axis terms for the matrix layout",
     "All paths of the classifier. Weights and features are any finite numbers; rounding is taken as monotone. " + TRUST)

prop("C08", "A resolved slot is the parser's slot with a value of its own entity",
     "The slots of a result are those the parser found, in its order, with their text, range, slot name and entity unchanged. Each "
     "carries the value and alternatives of an entity of its own kind that covers exactly the slot in the text, or that is read from "
     "the slot's text alone; the slot's text itself becomes the value only for a declared entity that accepts unseen values and after "
     "known values were looked for. Only a slot that none of this resolves is dropped, and as many alternative values are asked for as "
     "the caller wants.",
     ["inputs", "configurations"],
     "Every input text, every set of slots a parser may find, every dataset and every answer of the entity parsers.",
     "The tests resolve a handful of slots against mocked entities; the pairing of slot, kind and range holds for every combination "
     "of entities sharing a range or a kind.",
     ["src/nlu_engine.rs", "src/slot_utils.rs"],
     [("resolution of one slot", "src/slot_utils.rs resolve_custom_slot, resolve_builtin_slot"),
      ("scopes and dispatch", "src/nlu_engine.rs resolve_slots")],
     ENGINE + "; each slot of each result is traced to the parser's slot and the entity of its value, whose kind and range have to "
     "be facts of the path",
     "All paths of parsing and slot filling in the engine, resolution inlined. Entity parsers' answers are opaque. " + TRUST)

prop("C09", "Extracting one slot from a text answers that slot's entity over its own text",
     "Extracting a slot rejects an intent unknown to the assistant and a slot unknown to that intent. It answers an entity of the kind "
     "trained for that slot, found in the whole given text: the slot has the name asked for, the entity's range and value, and as raw "
     "value exactly the text at that range. The whole text, over its whole range of characters, is answered only when the entity "
     "accepts unseen values and no known value is found; otherwise nothing is.",
     ["inputs", "configurations"],
     "Every text (any script, any letter case), intent and slot name, on every dataset.",
     "The tests use short lower-case ASCII sentences; agreement of raw value, range and text quantifies over all texts.",
     ["src/nlu_engine.rs"],
     [("extraction", "src/nlu_engine.rs extract_slot_with_alternatives, extract_custom_slot, extract_builtin_slot")],
     ENGINE + "; field-by-field comparison of the exact terms of the returned slots with those of the entity they come from",
     "All paths of the extraction entry point. Entity parsers' answers are opaque. " + TRUST)

prop("C10", "A saved model is read in the format it was written in",
     "The model files of a trained assistant are read under the names, nesting and value types of the published format: every name of "
     "the format fills the field of that name, names the format declares optional may be absent, values of the whole range the format "
     "allows are accepted, unknown names are ignored, and nothing more is required. The codes and unit names of the format stand for "
     "their own variants.",
     ["inputs", "configurations"],
     "Every model file a trainer of the same model version may write.",
     "The tests load four shipped assistants, which use a part of the format each; optional and rarely used names never occur.",
     ["src/models/*.rs", "src/resources/loading.rs", "src/entity_parser/custom_entity_parser.rs"],
     [("model structures", "src/models/*.rs derive(Deserialize)"), ("unit names", "src/models/processing_unit_metadata.rs")],
     "reading of the type-checked code of every derived deserializer (names, field assignment, missing-field behaviour, value types), "
     "compared with a specification of the format that is checked against the shipped assistants",
     "All model structures reachable from the loading functions. " + TRUST)

prop("C11", "A loaded assistant consists of its own saved parts",
     "Loading rebuilds every part of the assistant from its own files below the given directory: the parsers in the saved order, each of "
     "the saved kind and from its own directory, the filler of each intent, the classifier with the saved weights, intents and "
     "vocabulary, and every option with its saved value. No part is left out, replaced by a default or shared between intents, a part "
     "that cannot be read is an error, and an assistant of another model version is rejected before the rest of it is read.",
     ["inputs", "configurations", "fault_sequences"],
     "Every saved assistant, whatever its parts, options and sizes; every failure to read one of its files.",
     "The tests load four shipped assistants with default options and look at the outcome of a few queries.",
     ["src/nlu_engine.rs", "src/intent_parser/*.rs", "src/intent_classifier/*.rs", "src/slot_filler/*.rs"],
     [("engine loading", "src/nlu_engine.rs from_path, check_model_version"), ("dispatch on unit names", "src/intent_parser/mod.rs, "
      "src/slot_filler/mod.rs, src/intent_classifier/mod.rs"), ("parts", "from_path and new of every unit")],
     ENGINE + "; each part of the loaded object must be the term read from its own field of its own file",
     "All paths of every loading function; decoding of JSON itself is C10. " + TRUST)

prop("C12", "The resources a model asks for are there and mean what their files say",
     "Each gazetteer, stemmer, word-cluster table and stop-word list is read from the file the assistant names and known under its own "
     "name; every line counts, and a word is looked up as it was stored. A feature or vectorizer that asks for a resource gets the one "
     "of that name, and loading fails when the assistant does not have it; one that does not ask for it works without.",
     ["inputs", "configurations", "fault_sequences"],
     "Every resource file, every set of resources and every feature option.",
     "The tests read files of three lines; every line, name and combination of options is beyond them.",
     ["src/resources/*.rs", "src/slot_filler/features.rs", "src/intent_classifier/featurizer.rs", "src/language.rs",
      "src/entity_parser/*.rs"],
     [("tables", "src/resources/loading.rs"), ("formats", "src/resources/gazetteer.rs, stemmer.rs, word_clusterer.rs"),
      ("use of resources", "src/slot_filler/features.rs build_features")],
     ENGINE + "; each table is compared with the lines of its file, each lookup with the stored key, each feature's resource with the "
     "shared table under the name in its arguments",
     "All paths. The two representations of word clusters are compared column by column. " + TRUST)

prop("C13", "The tagger is given, for each token, the features the saved model lists",
     "Each saved feature description builds the features of its kind, with the saved arguments, offsets and names, and an unknown kind "
     "is an error. A feature's value for a token is the documented one (shape, n-gram, prefix, entity overlap, cluster, and so on), "
     "absent exactly when it does not apply, and it is given to the tokens at each saved offset within the text, under a name telling "
     "the offset. The text in which entities are looked up has every token at its own position, and a feature that cannot be computed "
     "is an error.",
     ["inputs", "configurations"],
     "Every text, token position, feature argument, offset and list of features.",
     "The tests compute each feature for one or two short sentences; entities of several tokens, offsets past the ends and words at "
     "the edges of the text are beyond them.",
     ["src/slot_filler/features.rs", "src/slot_filler/feature_processor.rs", "src/slot_filler/features_utils.rs"],
     [("features", "src/slot_filler/features.rs"), ("construction and offsets", "src/slot_filler/feature_processor.rs")],
     ENGINE + "; each published feature name is given to the public constructor, and the term computed by the feature it builds is "
     "compared with the documented one",
     "All paths. Shapes, normalisation and entity parsing are opaque functions of their arguments. " + TRUST)

prop("C14", "The slots found by the tagger are those its tags describe",
     "A slot is a maximal run of tags of one slot by the rules of the scheme (IO, BIO, BILOU): it goes from the start of its first to "
     "the end of its last token, has the text at that range, the name in its tag, and the entity mapped to that name, a missing one being "
     "an error. The tags are those the tagger gives, in order, to the features of the text's own tokens, and the probability of given "
     "tags is the tagger's, with tags it never saw counted as outside; an intent without slots gives 1 to tags outside only and 0 to others.",
     ["inputs", "configurations", "fault_sequences"],
     "Every sequence of tags of each scheme, every text and mapping; every failure of the tagger.",
     "The tests list some tag sequences of each scheme; combinations of neighbouring tags, failures and unseen labels are not sampled.",
     ["src/slot_filler/crf_utils.rs", "src/slot_filler/crf_slot_filler.rs"],
     [("decoding of tags", "src/slot_filler/crf_utils.rs tags_to_slots"), ("tagging", "src/slot_filler/crf_slot_filler.rs")],
     ENGINE + "; the transition relation of the walk over the tags, read off the paths of one round, is compared with the scheme's rules "
     "over all sequences of its letters up to a length beyond the window of its conditions",
     "The letters of each scheme stand for all tags with that prefix; windows of more than four tags are not distinguished in the quick "
     "tier. The tagger itself is opaque. " + TRUST)

prop("C15", "Overlapping entities are reduced to the longest; replacing them keeps positions",
     "When entities overlap, one is dropped only if it overlaps a kept one that is at least as long; no two kept ones overlap, and they are "
     "answered by position. Replacing entities gives the text in which exactly the kept entities became their placeholders, the rest "
     "being copied character for character, and the mapping relates each placeholder's range in the new text to its entity's range in the "
     "old one. The placeholder is the entity's name without separators, in capitals, between percent signs.",
     ["inputs"],
     "Every text, of any length and script, and every list of entities, in any order and overlapping in any way.",
     "The tests reduce four ranges and replace entities in a few short sentences; chains of overlaps, long texts and names outside ASCII "
     "are not sampled.",
     ["src/utils.rs", "src/intent_parser/deterministic_intent_parser.rs", "src/intent_parser/lookup_intent_parser.rs"],
     [("reduction", "src/utils.rs deduplicate_overlapping_items, deduplicate_overlapping_entities"),
      ("replacement", "src/utils.rs replace_entities"), ("placeholders of the lookup parser", "src/intent_parser/lookup_intent_parser.rs "
      "replace_entities_with_placeholders")],
     ENGINE + "; the conditions under which an entity is kept or dropped are compared with the overlap of ranges, orders with lengths "
     "and positions, and the mapped ranges are shown by induction over the rounds of the loop to be sums of copied and placed characters",
     "Conditions on two ranges are compared over all orders of their ends (five positions). What an entity parser finds is opaque. " + TRUST)

prop("C16", "The deterministic parser matches an intent's patterns on cleaned text, in order",
     "For each intent, the patterns compiled for it are tried in the trained order, each on the input without stop words and then on the "
     "input in which the entities of the intent's own slots became placeholders, also without stop words; the first match gives the "
     "intent's only result, and a pattern is passed over only when it matches neither text. The stop words are those specific to the "
     "intent, or the general ones when it has none, compared in normalized form. Cleaning replaces exactly them, and what stands between "
     "words, by blanks, so that every other character keeps its position.",
     ["inputs", "configurations"],
     "Every text, every trained model, every set of allowed intents and every answer of the entity parsers.",
     "The tests parse a dozen English sentences with one small model; stop words longer than a character in other scripts, several "
     "patterns matching one text and entities inside stop words are not sampled.",
     ["src/intent_parser/deterministic_intent_parser.rs"],
     [("search of the patterns", "src/intent_parser/deterministic_intent_parser.rs parse_top_intents, get_matching_result"),
      ("removal of stop words", "src/intent_parser/deterministic_intent_parser.rs preprocess_text")],
     ENGINE + "; the patterns tried, the texts they are matched against and every path on which one is passed over are read off the "
     "summary of the entry point, and the removal of stop words is shown by induction over the words to keep positions",
     "What a regular expression matches and what an entity parser finds is opaque; words are taken to span their character range, as the "
     "tokenizer promises. " + TRUST)

prop("C17", "A match of the deterministic parser gives exactly the slots of its groups",
     "Every named group that took part in a match gives one slot: the slot the model maps the group's name to, the entity the intent maps "
     "that slot to, the characters of the original input that the group matched (for a placeholder, those of the entity it replaced; "
     "behind one, shifted by what the replacement added), and the input's text at these characters. Of overlapping slots only the longest "
     "are kept, and slots are answered by position.",
     ["inputs", "configurations"],
     "Every text, every trained model and every match, with any number of replaced entities before it, in any order of the mapping.",
     "The tests check the slots of some sentences with one or two entities; several replaced entities of different lengths, repeated slots "
     "and non-ASCII text before a match are hardly sampled, and the order in which a hash map is walked not at all.",
     ["src/intent_parser/deterministic_intent_parser.rs", "src/utils.rs"],
     [("slots of a match", "src/intent_parser/deterministic_intent_parser.rs get_matching_result"),
      ("shift behind replaced entities", "src/intent_parser/deterministic_intent_parser.rs get_range_shift"),
      ("reduction of slots", "src/intent_parser/deterministic_intent_parser.rs deduplicate_overlapping_slots")],
     ENGINE + "; every component of a slot is compared as a term over the match and the model, the shift is evaluated from its "
     "transition terms on all small mappings in every order, and the reduction compared with the overlap of ranges",
     "The shift is decided for mappings of up to four entries (the transition only compares positions). " + TRUST)

prop("C18", "The table parser answers what its table holds for the text, and nothing else",
     "For every group of intents, every set of the non-overlapping entities of the group's scope found in the input is tried: replaced by "
     "placeholders in the input, without the intent's stop words, in lower case, words joined by single blanks; a match is exactly a table "
     "entry under the hash of such a text. It carries the entry's intent and one slot per replaced entity: the entry's slot names go with "
     "the entities by position, each with its entity's name and range and the input's text there. Of an intent's matches one with the "
     "fewest slots is kept, and the intents come surest first, as many as asked for.",
     ["inputs", "configurations"],
     "Every text, every trained table, every set of allowed intents and every answer of the entity parsers.",
     "The tests look a few English sentences up in one small table; sets of three and more entities, scopes of several groups and stop words "
     "that are specific to one intent of a group are not sampled.",
     ["src/intent_parser/lookup_intent_parser.rs"],
     [("candidates", "src/intent_parser/lookup_intent_parser.rs get_candidates, get_items_combinations, get_all_entities"),
      ("entries", "src/intent_parser/lookup_intent_parser.rs parse_map_output, parse_top_intents"),
      ("cleaning", "src/intent_parser/lookup_intent_parser.rs preprocess_text")],
     ENGINE + "; every match in the summary of the entry point is followed back to its entry, text, intent and entities, the sizes of the "
     "entity sets tried are counted, and the choice and order of matches are evaluated on their numbers of slots",
     "That distinct texts have distinct hashes is not claimed. The sizes of sets are counted for up to five entities. " + TRUST)

prop("C19", "A text is classified by its own words, entities and pairs, weighted as saved",
     "The vector an intent is classified by holds, for every entry of the saved vocabulary, how often it occurs among the text's normalised "
     "stems, the features of its builtin and custom entities and its word clusters, weighted once by that entry's saved weight and scaled to "
     "unit length (unless all are nought). Where the model has saved word pairs, one number per pair follows: 1 if the pair occurs within the "
     "window in the text with entities replaced and stop or unknown words left out, in text order or alphabetically as configured, else 0. "
     "A failing entity parser is the answer.",
     ["inputs", "configurations"],
     "Every text, every saved vocabulary, weights, pairs and window, and every answer of the entity parsers, stemmer and clusterer.",
     "The tests compare vectors of a few sentences over a vocabulary of a dozen entries; wrong positions, weights of another entry or a "
     "window that is off show only in vocabularies and texts arranged for them.",
     ["src/intent_classifier/featurizer.rs"],
     [("tf-idf part", "src/intent_classifier/featurizer.rs TfidfVectorizer::transform"),
      ("word pairs", "src/intent_classifier/featurizer.rs CooccurrenceVectorizer::transform, extract_word_pairs"),
      ("joining of both", "src/intent_classifier/featurizer.rs Featurizer::transform")],
     ENGINE + "; every write into a vector is followed to the position, the number written and the condition it is made on, and the text "
     "features, weights and pairs back to where they come from",
     "Floating-point rounding is not considered. " + TRUST)

prop("C20", "Remembered entities are those that would be found, at their place in the text",
     "Whatever was asked before, with or without its cache, an entity parser answers what the loaded parser finds in the lower-cased text "
     "for exactly the kinds and the number of alternatives asked for: an answer is remembered under all it depends on, and a failure is "
     "passed on and never remembered. Custom entities are searched in the text's tokens joined by single blanks, each is answered, and only "
     "its range is changed: put back to the characters of the lower-cased text it starts and ends with, however words and gaps are laid out.",
     ["histories", "inputs"],
     "Every history of questions, every text, every list of kinds (or none), every number of alternatives and every answer of the parser behind.",
     "The tests never ask a caching parser twice, and compute the shifts of two short texts; questions that differ in one part only, and texts "
     "with wide gaps or letters of several bytes, are not sampled.",
     ["src/entity_parser/builtin_entity_parser.rs", "src/entity_parser/custom_entity_parser.rs", "src/entity_parser/utils.rs"],
     [("cache", "src/entity_parser/utils.rs Cache::try_cache; the extract_entities of both caching parsers"),
      ("ranges of custom entities", "src/entity_parser/custom_entity_parser.rs _extract_entities, compute_char_shifts")],
     ENGINE + "; remembered and fresh answers are compared as terms over the key they are kept under, and the shifts of characters are "
     "evaluated from the transition terms of their loop on all layouts of up to three tokens",
     "The shifts are decided for up to three tokens with gaps and lengths of up to two (a step compares neighbours only). What the parser "
     "behind finds is opaque. " + TRUST)

prop("C21", "An injection writes nothing until every part of it is known to work",
     "An injection rewrites parsers only after the engine and its resources were read and every entity was found, its parser loaded and its values "
     "taken: when any of this fails, for any entity, the error is returned and no file has been changed. From the first write on only "
     "writing itself can fail, and such failures are returned too. Each entity's updated parser replaces exactly the parser it was loaded from; on "
     "success that was done for every entity.",
     ["fault_sequences", "inputs"],
     "Every set of entities and values, every order they are visited in, and a failure at any step for any of them.",
     "The tests inject into an intact model; a failure at the second or third entity, in the order a hash map happens to give, is not tried.",
     ["src/injection/injection.rs"],
     [("injection", "src/injection/injection.rs NluInjector::inject"),
      ("directories", "src/injection/injection.rs get_entity_parsers_dirs")],
     ENGINE + "; at every write the steps it needs are shown to have succeeded, every continuing path is shown to have looked at each step's outcome, "
     "and in the control flow graph (helpers and closures included) no step that can fail for another reason is reachable from a write",
     "A crash between the removal and the rewriting of a parser, or a full disk, is outside the claim. What the gazetteer parser's dump does is trusted. " + TRUST)

prop("C22", "Injected values reach their entity's own parser, in the forms it searches",
     "Every value added for an entity is put first in the gazetteer parser of that very entity (custom ones for entities of the dataset, builtin ones for "
     "gazetteer entities), resolving to the value as given and found by its lower-cased form, by the stems of that form's tokens, or by both, as "
     "the custom parser is used; earlier injections are kept or dropped as asked for. Builtin entities are never stemmed, and values that would "
     "need a missing stemmer are refused. Grammar entities, unknown ones and those without a parser are refused as not injectable, no others.",
     ["inputs", "configurations"],
     "Every entity and value, every way custom parsers are used, with or without a stemmer or given resources.",
     "The tests inject one album and one playlist into one model, with stems; other usages, several values per entity and entities found in "
     "both parsers are not sampled.",
     ["src/injection/injection.rs"],
     [("values", "src/injection/injection.rs normalize_entity_value, stem_entity_value"),
      ("directories", "src/injection/injection.rs get_entity_parsers_dirs, get_builtin_parser_info, get_custom_parser_info, get_nlu_engine_info"),
      ("what is asked for", "src/injection/injection.rs add_value, from_vanilla, shared_resources")],
     ENGINE + "; the values given to each parser are compared with the forms each kind of entity needs, and each directory is followed back through the "
     "metadata files it is read from",
     "What the gazetteer parser does with its values is opaque. " + TRUST)

prop("C23", "Threads asking one engine at once get the answers each would get alone",
     "One loaded engine, and each of its parts, can be asked by any number of threads at once: every call answers what it would answer alone, and "
     "waits at most for calls that end by themselves. Nothing a call leaves behind is seen by another one except what entity parsers remember of a "
     "text (C20); the tagger, which keeps the last sequence it was given, is given a sequence and asked about it within one lock. No call fails or "
     "answers differently because another call holds a lock or has changed what is remembered between two of its own locks.",
     ["schedules"],
     "Every interleaving of any number of concurrent calls on one engine, whatever they ask.",
     "No test calls an engine from two threads, and interleavings cannot be sampled exhaustively.",
     ["src/nlu_engine.rs", "src/slot_filler/crf_slot_filler.rs", "src/entity_parser/builtin_entity_parser.rs",
      "src/entity_parser/custom_entity_parser.rs", "src/entity_parser/utils.rs", "ffi/src/lib.rs"],
     [("tagger lock", "src/slot_filler/crf_slot_filler.rs get_slots, get_sequence_probability"),
      ("memory locks", "src/entity_parser/*_entity_parser.rs extract_entities"),
      ("shareable interfaces", "src/*/mod.rs traits with Send + Sync")],
     "type walk from the engine through trait objects for interior mutability; guard-liveness dataflow over MIR with a call graph for lock order; abstract "
     "interpretation with every lock acquisition told apart (typestate of the tagger)",
     "Shared state inside the external crates (gazetteer parsers, taggers) is trusted. " + TRUST)


prop("C24", "The C functions ask the engine what the caller asked, and hand back its answer",
     "Each exported C function asks the engine exactly what its arguments say: the given text, intent and numbers of alternatives (0 where it takes "
     "none), a list of intents only when its pointer is not null, with all its names, even when it is empty. Success means the engine's whole answer, "
     "or its JSON, was written through the result pointer; text that is not UTF-8, in a list too, and null pointers are refused, nothing else is "
     "unless the engine refuses it. Every function and Python alias is exported, and an alias calls the function it is named after with its arguments.",
     ["inputs"],
     "Every argument of every exported function: any text, null pointers, any list including an empty one without data, any number.",
     "No test of the Rust code calls a C function; null, empty and undecodable arguments are not sampled by the bindings' tests either.",
     ["ffi/src/lib.rs", "platforms/python/ffi/src/lib.rs"],
     [("C functions", "ffi/src/lib.rs snips_nlu_engine_*"), ("lists", "ffi/src/lib.rs convert_to_rust_vec"),
      ("aliases", "platforms/python/ffi/src/lib.rs export_c_symbol")],
     ENGINE + "; the result parameter is a memory cell, every parameter a symbol; each engine call and written value is compared, argument by argument, with "
     "what the C signature promises",
     "The helpers of ffi_utils (raw_borrow, into_raw_pointer, point_to_string) are trusted by their names. " + TRUST)

prop("C25", "What the C interface gives away is released once, and a failure is clean",
     "Every value an exported C function gives away is owned by the caller and can be released by exactly one exported function, which takes back the very "
     "type the pointer was made from, once, and lets it go; it reports success only then. A failing call records its error as the last error, writes "
     "nothing through its result pointer, and never panics because a step it relies on failed.",
     ["inputs", "fault_sequences"],
     "Every exported function, and every step of it that can fail.",
     "Leaks, double releases and stale errors do not show in the results a test compares, and no test makes the steps fail.",
     ["ffi/src/lib.rs"],
     [("releases", "ffi/src/lib.rs snips_nlu_engine_destroy_*"), ("errors", "ffi/src/lib.rs wrap!, generate_error_handling!")],
     ENGINE + "; resolved types of every ownership conversion reached through the call graph, typestate of taken-back values, cell of the result parameter on "
     "failing paths",
     "The C, Kotlin, Swift and Python callers are not part of this property. " + TRUST)

prop("C26", "The Python wrapper asks what its caller asked, and returns the answer",
     "Each method of the Python wrapper calls the exported function it documents with its own engine and exactly the arguments given: texts in UTF-8, a "
     "list when one is given, empty or not, with all its names, and none otherwise. It returns the library's answer, or raises an error that carries the "
     "library's own message for that failure. Every text the library gives is given back once, after its last reading, on every path, and the engine "
     "once, when its object goes.",
     ["inputs", "fault_sequences"],
     "Every use of the constructor and of the methods: lists absent, empty or given, calls of the library that succeed and that fail.",
     "The Python tests need the compiled library and try a handful of calls; leaks, readings of released memory and lost messages do not show in them.",
     ["platforms/python/snips_nlu_rust/nlu_engine.py", "platforms/python/snips_nlu_rust/utils.py"],
     [("methods", "platforms/python/snips_nlu_rust/nlu_engine.py NLUEngine"),
      ("ownership and errors", "platforms/python/snips_nlu_rust/utils.py string_pointer, check_ffi_error"),
      ("array layout", "platforms/python/snips_nlu_rust/utils.py CStringArray")],
     "path-sensitive abstract interpretation of the wrapper's Python syntax trees (foreign calls, memory cells handed over by reference, context managers), "
     "checked per abstract argument and outcome of each foreign call; typestate of the texts given by the library",
     "The semantics of ctypes and json are taken from their documentation. " + TRUST)

prop("C27", "An assistant given as a zip archive is extracted whole, safely, and then removed",
     "Loading an engine from a zip archive writes every entry of the archive, directories as directories and files with all of their content, and nothing "
     "outside of a fresh temporary directory, whatever the names of the entries; directories need not be listed. An entry that cannot be read or written "
     "fails the load. The engine is the one loaded from the archive's own first directory while the temporary directory is alive, and that directory is "
     "gone afterwards, also when the load fails.",
     ["inputs", "fault_sequences"],
     "Every archive: any number, order and names of entries, entries that cannot be read, files that cannot be written.",
     "The test loads one well-formed archive; hostile names, missing directories, unreadable entries and leftovers are not sampled.",
     ["src/utils.rs", "src/nlu_engine.rs"],
     [("extraction", "src/utils.rs extract_nlu_engine_zip_archive"), ("temporary directory", "src/nlu_engine.rs from_zip")],
     ENGINE + "; every file system effect with the path it is given, every way through the loop over the entries with the effects it had, liveness of the "
     "temporary directory's owner over MIR along the call graph",
     "`sanitized_name` of the zip crate gives a name without steps outside; TempDir removes its directory when dropped. " + TRUST)

prop("C28", "A step that fails is reported, not passed over",
     "When one step of a load, an injection or a question fails (a file or line that cannot be opened, read or deserialized, a parser, classifier, tagger or "
     "entity parser that returns an error), the call the caller made returns an error: it never answers, loads or goes on as if the step had succeeded or had "
     "nothing to give, and never panics. A column missing in a resource file and a path that is not UTF-8 are such failures. Only asking whether a name is "
     "that of a builtin entity may be answered no.",
     ["inputs", "fault_sequences"],
     "Every call in the library which returns a Result, failing on its own while all others succeed, whatever the inputs.",
     "Tests run with well-formed models and parsers that work; hardly any of the two hundred steps that can fail is ever made to fail.",
     ["src/nlu_engine.rs", "src/resources/loading.rs", "src/intent_parser/", "src/intent_classifier/", "src/slot_filler/", "src/injection/injection.rs"],
     [("loads", "src/resources/loading.rs, src/nlu_engine.rs from_path, each from_path"), ("questions", "src/nlu_engine.rs parse_with_alternatives, get_slots_with_alternatives, get_intents"),
      ("injection", "src/injection/injection.rs inject")],
     ENGINE + "; one run of the enclosing function per fallible call site (enumerated over MIR), in which that call returns an error marked on the path: "
     "no success, round of a loop or panic may follow the mark, and an error must be returned",
     "A file whose existence is asked first is not a failing step here (C12 covers the resources). Models whose own files contradict each other when asked "
     "are not covered. Errors of `ndarray::stack!` on arrays built side by side are taken not to happen. " + TRUST)

prop("C29", "The same question gets the same answer",
     "What an engine, parser, classifier or slot filler answers depends on the model's files and the question alone: not on the order in which a hash table happens "
     "to give its elements (scores that are equal, sums of scores, entities asked for), the time, the environment, chance, nor on what was asked before or of another "
     "engine. Two engines loaded from the same files, and one engine asked twice, give the same answer in the same order.",
     ["inputs", "histories", "configurations"],
     "All questions, models and earlier questions; every place where a hash table is gone through on the way from the files to an answer.",
     "A test sees one order of each table per run, and few tests have two intents with equal scores; what differs from run to run cannot be asserted by one.",
     ["src/nlu_engine.rs", "src/intent_parser/", "src/intent_classifier/", "src/slot_filler/", "src/resources/", "src/utils.rs"],
     [("ranking", "src/nlu_engine.rs get_intents; parse_top_intents of both rule-based parsers"), ("entity scopes", "src/intent_parser/deterministic_intent_parser.rs new"),
      ("vectors", "src/intent_classifier/featurizer.rs transform"), ("range shifts", "src/intent_parser/deterministic_intent_parser.rs get_range_shift")],
     "interprocedural flow analysis over MIR of sequences in hash order (sources: the iterator types of HashMap and HashSet; ended by sorting with an order that tells "
     "elements apart, by collecting into a map or set, by counting), from loads and questions to answers, picks, float sums and kept values; effect analysis over the "
     "call graph for time, environment, chance, files and state shared between questions",
     "Comparisons that end in comparing texts are taken to tell elements apart, as are numbers that an element carries (the latter is reported undecided). The indices "
     "of a model's word pairs are taken to be distinct. The entity parsers and the tagger are other crates'. " + TRUST)

prop("C30", "The published interfaces match the exported functions and are used that way",
     "The C header, and the Kotlin and Swift wrappers' declarations and calls, name functions the library exports, with as many arguments, of the same types and in the "
     "same order; the header lays the values out as the library does. A wrapper passes each of its own arguments on in its place, whole and unchanged (allowed and excluded intents, counts of alternatives, text and intent), looks at the "
     "outcome of every call that can fail, releases each answer with the function for its kind and only after reading it, and reads every kind of value, each field "
     "from where it is stored and as the type it is stored under.",
     ["programs", "inputs"],
     "Every function, argument, field and kind of value of the three interfaces, and so every program that uses the library through them.",
     "The Rust tests never go through a wrapper; the wrappers' own tests need a device or a virtual machine and sample one parse, and no test compares declarations.",
     ["platforms/c/libsnips_nlu.h", "platforms/kotlin/src/main/kotlin/ai/snips/nlu/NluEngine.kt", "platforms/swift/SnipsNlu/SnipsNlu/NluEngine.swift", "ffi/src/lib.rs"],
     [("exports", "ffi/src/lib.rs extern \"C\" functions"), ("declarations", "libsnips_nlu.h; NluEngine.kt SnipsNluClientLibrary"),
      ("calls and fields", "NluEngine.kt; NluEngine.swift")],
     "signatures of the exported functions from the type-checked crate compared with clang's syntax tree of the header and with the token trees of the wrappers; names "
     "followed through assignments, closures and file-local functions to arguments, fields and releases",
     "Kotlin and Swift are not type-checked here (no compiler for them); what their syntax leaves open is reported undecided. The structures are another "
     "crate's, whose source is not here: their layout is compared with the one published for the version that is pinned. The Python wrapper is C26's.")
