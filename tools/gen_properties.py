"""Writes /verif/properties.jsonl (the texts live here, one place to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": mech, "where": ", ".join(files)}]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Per-file results are published atomically",
  "When a corpus is parsed or preprocessed, the result file of an input file appears under its final name only after its whole content has been written and the file has been closed, by renaming a temporary file onto it. Nothing ever writes to, truncates or partially creates a file under a final result name, so at every moment a result file is either absent or complete.",
  ["crash_points", "inputs"], "every crash point while a file is parsed or preprocessed, every input file and configuration",
  "Tests run the pipeline to the end on two small corpora; they never stop it between two file system operations.",
  ["codeprep/pipeline/parse_projects.py", "codeprep/pipeline/to_repr.py"],
  "worker functions write dest + '.part' inside a with block and os.rename afterwards",
  [("<dest>.part", "unfinished result"), ("<dest>", "complete result, skipped by later runs")])
p("C02", "A stage is marked complete only when every file is done",
  "The completion marker of a pipeline stage (parsed corpus, preprocessed corpus, cached file list) is written only after all the work of that stage has finished without an error. A failure while handling any single file stops the stage before its marker is written, and a file counts as handled only if its result exists (or its source has vanished).",
  ["crash_points", "fault_sequences", "inputs"], "every crash point and every error raised by any file of any corpus, sequential or parallel execution",
  "Tests have no failing file and no interruption; a marker written too early is invisible when everything succeeds.",
  ["codeprep/pipeline/parse_projects.py", "codeprep/pipeline/to_repr.py", "codeprep/pipeline/dataset.py"],
  "set_ready()/set_path_ready() calls follow exhaustive consumption of the worker results")
p("C03", "Cached stage results are reused only if complete and unchanged",
  "The parsing and preprocessing stages are skipped only if their results are marked complete and their modification stamp still equals the recorded one. Otherwise the stage is run, results that are outdated are moved away before, and preprocessing (and vocabulary calculation) never starts before the stage it depends on has been brought up to date.",
  ["histories", "crash_points"], "every combination of absent, incomplete, complete, outdated results left by earlier runs",
  "Tests start from an empty cache and mock the stages; the combinations of leftover states are not sampled.",
  ["codeprep/pipeline/stages.py", "codeprep/pipeline/dataset.py"],
  "run_* functions branch on ready()/is_outdated(); is_path_ready/is_path_outdated compare stamps",
  [(".<name>.lastmodif", "completion marker holding the stamp")])
p("C04", "Learned BPE codes appear all at once or not at all",
  "A directory holding learned BPE codes (named after the number of merges) becomes visible under that name only when the merges, the cache and both vocabulary files in it are completely written. An interruption while the results are saved never leaves a directory that a later run would use as learned codes.",
  ["crash_points"], "every crash point while learned codes are saved",
  "The learning test runs without interruption.",
  ["codeprep/pipeline/bpelearner.py", "codeprep/pipeline/bperegistry.py"],
  "save_results fills <n>.part and renames it to <n>; directories whose name is not a number are ignored")
p("C05", "Vocabulary, non-BPE list and corpus size files are all-or-nothing",
  "Files that later runs accept merely because they exist (the vocabulary, the list of tokens excluded from BPE, the cached corpus size) appear under their final name only when completely written. The vocabulary statistics are complete before the vocabulary appears, and a preprocessed file appears only after the tokens it contributes to the excluded list have been stored.",
  ["crash_points"], "every crash point while these files are produced",
  "Tests never interrupt the writers.",
  ["codeprep/pipeline/vocab.py", "codeprep/pipeline/vocabloader.py", "codeprep/api/corpus.py", "codeprep/pipeline/to_repr.py"],
  "write to a temporary sibling, close, os.rename to the final name")
p("C06", "Interrupted vocabulary calculation resumes without loss or double counting",
  "Partial vocabularies survive an interruption: the record that all of them exist is written only after each has been stored and closed, a merged one is checked to be readable before the two it replaces are removed and is renamed to its final name only after they are gone, and the partial results are deleted only after the final vocabulary has been published. Resuming therefore counts every file exactly once.",
  ["crash_points", "histories"], "every crash point during vocabulary calculation and every resumed run",
  "The tests never stop the vocabulary calculation half-way; whether the order of removals and renames is safe shows only after a crash between two of them.",
  ["codeprep/pipeline/vocab.py"],
  "a_b_c.partvocab naming protocol in _merge/finish_file_dumping/load_partial_vocabs; 'ready' marker; rmtree at the end of _finish_merges")
p("C07", "The input dataset is never modified",
  "No operation (parsing, preprocessing, vocabulary calculation, BPE learning, computing stamps, listing files) writes, creates, renames or deletes any file or directory of the dataset given by the user; its files are only ever opened for reading.",
  ["inputs", "configurations", "crash_points"], "every dataset, option combination and entry point",
  "Tests do not compare the dataset before and after, and sample only a few entry points.",
  ["codeprep/pipeline/dataset.py", "codeprep/pipeline/parse_projects.py", "codeprep/pipeline/to_repr.py", "codeprep/pipeline/stages.py", "codeprep/pipeline/bpelearner.py", "codeprep/api/corpus.py", "codeprep/dirutils.py", "codeprep/fileutils.py"],
  "all write-like file system calls are applied to paths below the cache, the config or the output directory")
p("C08", "Only codeprep's own temporary results are ever deleted",
  "Deletions are limited to intermediate results codeprep itself created: partial vocabularies, partial excluded-token lists and unfinished BPE directories. Finished results (parsed and preprocessed corpora, vocabularies, BPE codes) are never deleted: when outdated they are moved to an archive name that carries their modification stamp, together with their completion marker.",
  ["inputs", "histories"], "every entry point and every state of the cache",
  "Tests do not look at what else disappears, and the archive path is hardly executed.",
  ["codeprep/pipeline/vocab.py", "codeprep/pipeline/vocabloader.py", "codeprep/pipeline/dataset.py", "codeprep/pipeline/bpelearner.py"],
  "os.remove/shutil.rmtree call sites and archive_path")
p("C09", "Result locations depend on every input that affects the results",
  "Two runs share a parsed corpus, preprocessed corpus, vocabulary, file list, corpus size or BPE directory only if the dataset name, its modification stamp and the set of extensions agree, and, for results that depend on them, the preprocessing configuration and the custom BPE codes with their number of merges (for BPE learning: the BPE configuration) agree as well. None of the inputs is dropped from, or truncated in, the location.",
  ["configurations", "inputs"], "every pair of runs with different inputs or options",
  "Tests compare a handful of fixed path names; a component missing from one location shows only when two particular runs collide.",
  ["codeprep/pipeline/dataset.py", "codeprep/prepconfig.py", "codeprep/bpepkg/bpe_config.py"],
  "Dataset path properties concatenate the name, stamp, extensions, prep config, bpe suffix")
p("C10", "CLI, text API and corpus API agree on the configuration",
  "For the same options, the command line, the text API and the corpus API build the same preprocessing configuration and select the same BPE codes, for every combination of options; every option accepted by an entry point reaches the configuration. Options not given have the same default everywhere.",
  ["configurations"], "all option combinations of nosplit, chars, basic and bpe at the three entry points",
  "CLI tests compare a few dozen fixed command lines with hand-written configurations; the options are combined one at a time.",
  ["codeprep/api/common.py", "codeprep/api/text.py", "codeprep/api/corpus.py", "codeprep/cli/impl.py"],
  "create_prep_config / create_prep_config_from_args and the api functions forward options")
p("C11", "Each preprocessing option has exactly its documented effect",
  "Every option value selects the documented treatment and nothing else: comments, string literals, non-ASCII words, newlines and tabs, number splitting, word splitting, lowercasing and full strings are each governed by their own option, for all combinations. A string literal is emptied exactly if its length exceeds the given limit (2 to 61), and a configuration without a limit never shortens a literal.",
  ["configurations", "inputs"], "all valid configurations",
  "Tests use a few dozen of the several thousand configurations.",
  ["codeprep/prepconfig.py", "codeprep/api/common.py", "codeprep/tokens/containers.py"],
  "get_types_to_be_repr, get_number_splitter, get_word_splitter, get_repr_config, create_str_value, get_max_str_length")
p("C12", "Placeholders leak nothing of the content they replace",
  "A comment replaced under no_com, a string literal replaced under no_str or over the length limit, and a word replaced under no_unicode contribute nothing derived from their content to the output tokens or the metadata; newlines and tabs removed under no_spaces contribute no token at all. With BPE, non-ASCII characters are replaced by the fixed placeholder character before the word or string literal is encoded.",
  ["inputs", "configurations"], "every comment, literal, word and whitespace token under every configuration",
  "Tests check a few sample tokens.",
  ["codeprep/tokens/containers.py", "codeprep/tokens/noneng.py", "codeprep/tokens/whitespace.py", "codeprep/preprocess/core.py", "codeprep/noneng.py"],
  "preprocessed_repr implementations and the exact-class dispatch in torepr")
p("C13", "Tokens and metadata stay in lockstep",
  "For every input and configuration, the word boundaries returned with the tokens start with 0, end with the number of tokens and contain one boundary more than there are token types. This holds for every kind of token and is preserved when the pieces are concatenated.",
  ["inputs", "configurations"], "every token kind, nesting and configuration",
  "Tests compare fixed outputs for sample inputs; the invariant ranges over every combination of token kinds.",
  ["codeprep/preprocess/core.py", "codeprep/preprocess/metadata.py", "codeprep/tokens/"],
  "each (non_)preprocessed_repr returns (tokens, metadata); PreprocessingMetadata.update shifts boundaries")
p("C14", "BPE end-of-token markers sit exactly on token-final subtokens",
  "In every BPE configuration (splitting into characters included) the end-of-token marker is appended to the last subtoken of each full token and to nothing else, without changing the number of subtokens. In all other configurations no marker is added.",
  ["inputs", "configurations"], "every token sequence and configuration",
  "Tests check a few fixed sequences.",
  ["codeprep/pipeline/to_repr.py"],
  "insert_and_word_tokens driven by metadata.word_boundaries, guarded by is_bpe()")
p("C15", "Preprocessing has no hidden memory",
  "Preprocessing the same text with the same options gives the same tokens however often and after whatever other calls it is run: no call changes the parsed tokens, the BPE merges or cache, placeholders, configurations or any other data shared between calls.",
  ["histories", "inputs"], "every sequence of preprocessing calls in one process",
  "Tests call each function on fresh data, mostly once.",
  ["codeprep/bpepkg/bpe_encode.py", "codeprep/tokens/", "codeprep/preprocess/", "codeprep/pipeline/to_repr.py", "codeprep/prepconfig.py"],
  "effects on module-level, parameter and configuration objects")
p("C16", "What is written to disk is read back unchanged",
  "For each on-disk format (vocabulary, excluded-token list, BPE merges, BPE cache, cached file list, preprocessed files, corpus size) writer and reader use the same delimiters, field order, escaping and line structure. Contents that could contain a delimiter are escaped, so no token can break the format.",
  ["inputs"], "every token, file name and word the formats can hold",
  "One doctest round-trips two entries; other formats have no round-trip test.",
  ["codeprep/pipeline/vocab.py", "codeprep/pipeline/vocabloader.py", "codeprep/bpepkg/merge.py", "codeprep/bpepkg/cache.py", "codeprep/dirutils.py", "codeprep/pipeline/dataset.py", "codeprep/pipeline/bpelearner.py", "codeprep/pipeline/to_repr.py", "codeprep/preprocess/metadata.py", "codeprep/util.py"],
  "matching dump/load function pairs")
p("C17", "Configuration strings are valid, unique and reversible",
  "The encoded form of a configuration has one character per parameter, in one fixed order, and decoding it gives back the same configuration, so that different configurations have different encodings. A configuration object cannot be created, directly or by decoding, with a missing or additional parameter, an impossible value or an unsupported combination (lowercasing without splitting or with BPE).",
  ["configurations", "inputs"], "all parameter assignments and all strings",
  "Tests try a few invalid strings.",
  ["codeprep/prepconfig.py"],
  "PrepConfig.__init__, __check_invariants, from_encoded_string, __str__")
p("C18", "Every configuration the interfaces can build can be executed",
  "For each configuration that the API or the command line can produce, every step that depends on it (choice of token types, number splitter, word splitter, string length limit, BPE data files) has a defined result, and predefined BPE codes resolve to merge files shipped with the package. No accepted option combination ends in an internal 'invalid value' error.",
  ["configurations"], "all option combinations",
  "Tests execute a small part of the combinations.",
  ["codeprep/prepconfig.py", "codeprep/api/common.py", "codeprep/pipeline/to_repr.py", "codeprep/pipeline/bperegistry.py"],
  "per-value branches in prepconfig.py and init_bpe_data; data/bpe")
p("C19", "Every command-line option is parsed and used",
  "Every option and argument declared in the usage text of a command is read by the code handling that command, and the handler reads, without a fallback, only names that the usage text of each command it serves declares. No declared option is silently ignored.",
  ["configurations", "inputs"], "all commands and all their options",
  "Tests do not cover all options of all commands and build argument dictionaries by hand.",
  ["codeprep/cli/spec.py", "codeprep/cli/impl.py"],
  "docopt usage strings versus keys looked up in the args dictionary")
p("C20", "Parallel vocabulary merging neither loses nor duplicates counts",
  "Counters shared by the merging processes are changed and tested only as one indivisible step under their lock, so exactly one process finds itself last and finishes the job, after all the others have put back what they were merging. For each group of n partial vocabularies exactly n-1 merges are scheduled, every vocabulary taken is put back (merged) or was merged into one put back, and merging adds up the counts of every word.",
  ["schedules", "inputs"], "all interleavings of the merging processes and all distributions of partial vocabularies",
  "Tests run no merger processes under adverse schedules; a lost update needs a particular interleaving.",
  ["codeprep/pipeline/vocab.py", "codeprep/util.py"],
  "AtomicInteger, VocabMerger.run/_finish_merges, create_chunk_queue, mapify_tasks, merge_dicts_")
p("C21", "Parallel workers do not influence each other or the result",
  "Each worker process handling one file touches only paths derived from that file's own parameters and changes no shared program state, so results do not depend on scheduling, on the number of workers or on the order of files. BPE data is loaded before the workers are started, and what is written to result files depends neither on the time, the process nor random numbers.",
  ["schedules", "inputs"], "all schedules and worker counts",
  "Tests run with one machine's worker count on a corpus of a few files.",
  ["codeprep/pipeline/parse_projects.py", "codeprep/pipeline/to_repr.py", "codeprep/api/corpus.py"],
  "worker functions passed to Pool.imap_unordered")
p("C22", "Each source file has its own result file, at the same place",
  "Every selected source file is mapped to exactly one parsed and one preprocessed file, at the same relative path below the result directory, with the stage's suffix put after the complete file name, so that different source files never share a result file. The files a stage writes are exactly the files the next stage (and vocabulary and size calculation) reads.",
  ["inputs"], "every directory tree, single-file datasets included",
  "Tests have few directory layouts; files differing only in extension or directory are rare in them.",
  ["codeprep/pipeline/dataset.py", "codeprep/pipeline/parse_projects.py", "codeprep/pipeline/to_repr.py"],
  "SubDataset.file_iterator and get_new_file_name")
p("C23", "Tokenizing keeps all visible text, in order",
  "Apart from blanks, every character the lexer delivers is contained in exactly one parsed token, in the original order: the splitting of words, identifiers and string literals covers the text without gaps, and each piece is passed on completely. No produced token contains a space.",
  ["inputs"], "every text in every language",
  "Tests split a few sample strings.",
  ["codeprep/parse/core.py", "codeprep/parse/matchers.py", "codeprep/parse/subtokens.py"],
  "matcher.transform functions and the regular expressions in subtokens.py")
p("C24", "Every lexer token is mapped to the right kind of token",
  "Every token a lexer can deliver is handled by exactly one rule, with a fallback so that none is rejected or dropped: comments become comment tokens (single-line and other comments told apart), string literals string tokens, numbers number tokens, names and keywords words and keywords, operators and punctuation operators. Blank text of any lexer type becomes whitespace tokens only.",
  ["inputs"], "all standard lexer token types with blank and non-blank values",
  "Tests cover a few languages and token types.",
  ["codeprep/parse/core.py", "codeprep/parse/matchers.py"],
  "ordered list of matchers, first match wins, default matcher")
p("C25", "Every source file can be read, and files are closed",
  "A source file with arbitrary bytes is decoded as UTF-8 or else by an encoding that accepts every byte sequence, whatever its name or extension looks like, so that no file content aborts a corpus run. Every file opened by codeprep is closed on all paths, also when an error occurs.",
  ["inputs", "fault_sequences"], "every byte sequence as content or extension; every error while a file is open",
  "Tests read well-formed files; unclosed files go unnoticed under reference counting.",
  ["codeprep/fileutils.py", "codeprep/pipeline/", "codeprep/bpepkg/", "codeprep/dirutils.py", "codeprep/preprocess/metadata.py", "codeprep/api/corpus.py"],
  "read_file_contents fallback; with statements around open()")
p("C26", "New BPE code ids are unique",
  "When no id is given, the id assigned to newly learned BPE codes differs from every id already in use, for every dataset name. Numbering continues after the highest number in use for that name.",
  ["histories", "inputs"], "all dataset names and all sets of existing ids",
  "Tests use a few plain names.",
  ["codeprep/pipeline/bperegistry.py"],
  "create_new_id_from")
p("C27", "Requesting n merges uses exactly the first n merges",
  "Using codes with n merges always applies exactly the first n merges of a list that has at least n, in learned order; codes with fewer merges are never used in their place, a precomputed cache is used only if it belongs to the same number of merges, and learning n merges continues from the largest existing result not exceeding n.",
  ["inputs", "histories"], "all numbers of merges and all sets of existing results",
  "Tests cover a few numbers.",
  ["codeprep/pipeline/bperegistry.py", "codeprep/pipeline/to_repr.py", "codeprep/bpepkg/merge.py", "codeprep/pipeline/bpelearner.py"],
  "get_min_merges/get_max_merges, CustomBpeConfig.create, read_merges limit")
p("C28", "Letter case is either preserved or encoded reversibly",
  "Storing a word in its canonical form and restoring it gives back the same word, whatever its capitalization. When lowercasing is requested, the capitalization is expressed by exactly one prefix token (first letter or all letters) or none, consistently with how the word was classified.",
  ["inputs", "configurations"], "all words (whose letters have a reversible single-character case mapping)",
  "Tests check a few words.",
  ["codeprep/tokens/word.py"],
  "Word.from_, __with_preserved_case, __with_capitalization_prefixes")
p("C29", "End-of-file marker: exactly one, at the end",
  "Every preprocessed corpus file ends with exactly one end-of-file token. The text API appends one exactly if asked to, after everything else, and not otherwise.",
  ["inputs", "configurations"], "all texts, files and configurations",
  "Tests check samples.",
  ["codeprep/pipeline/to_repr.py", "codeprep/api/text.py"],
  "SpecialToken(placeholders['ect']) appended before to_repr")
p("C30", "BPE learning checks its configuration before doing anything",
  "Unsupported BPE learning options (byte-level, word-end characters, case prefixes) are rejected before any result is read or written. Supported ones are preprocessed with the fixed base configuration (comments replaced, literals limited, strings and words unsplit, case kept, non-ASCII per option), and this configuration is recognised as the one for which tokens excluded from BPE are collected.",
  ["configurations"], "all BPE configurations",
  "Tests run learning with the default configuration only.",
  ["codeprep/pipeline/bpelearner.py", "codeprep/bpepkg/bpe_config.py", "codeprep/prepconfig.py"],
  "check_if_bpe_config_supported, to_prep_config, is_base_bpe_config")
p("C31", "The cached file list equals the list it replaces",
  "Listing a dataset yields exactly the non-link files that match the requested extensions (all if none are given), each once, and records exactly what it yields, so that a later run reading the record processes the same files. Directories are recorded separately and never mixed with files.",
  ["inputs", "histories"], "all directory trees and extension lists, first and repeated runs",
  "Tests check one tree, with mocked walking.",
  ["codeprep/dirutils.py", "codeprep/pipeline/dataset.py", "codeprep/fileutils.py"],
  "walk_and_save writes and yields; get_all_files reads the record back")
p("C32", "The modification stamp takes the whole dataset into account",
  "The stamp that decides about reuse is the latest modification time over the dataset's root, all its directories and all its files (up to the documented number of entries), linked directories included. No kind of entry and no branch is left out, so that creating, deleting or changing an entry can be noticed.",
  ["inputs", "histories"], "all directory trees",
  "Tests mock the stamp.",
  ["codeprep/dirutils.py"],
  "get_dir_last_modification")
p("C33", "BPE splitting returns exactly the word it was given",
  "The escape character and end marker that BPE adds to a word before encoding are removed exactly, so that the concatenated subwords equal the original word, for every word (including ones containing the escape character) and regardless of whether the cache is used.",
  ["inputs"], "all words, with and without cache entry",
  "Tests encode a few words.",
  ["codeprep/bpepkg/bpe_encode.py", "codeprep/pipeline/to_repr.py"],
  "escape/unescape/get_bpe_subwords and how cache entries are built")
p("C34", "Loaded BPE data is replaced only by complete data",
  "The BPE data used by later calls changes only when the new merges and cache have been loaded completely; if loading fails, the previously loaded data (or none) stays in effect. Data loaded earlier is reused only if the caller did not ask for reloading.",
  ["fault_sequences", "histories"], "every failure while BPE data is loaded and every sequence of calls",
  "Tests do not fail loading and continue.",
  ["codeprep/pipeline/to_repr.py", "codeprep/api/text.py"],
  "init_bpe_data assigns the module-level data last")
p("C35", "Failed or empty vocabulary calculation is reported",
  "If no files are found, or the merging processes end without having produced the vocabulary, the calculation ends with an error instead of reporting success. It returns normally only if the vocabulary exists.",
  ["fault_sequences", "schedules"], "every failure of the merging processes",
  "Tests mock the calculation.",
  ["codeprep/pipeline/vocab.py"],
  "calc_vocab checks after join; create_partial_vocabs exits if there are no files")
# ---- not applicable to static analysis
p("C36", "BPE encoding follows the learned merge order",
  "Encoding a word applies the applicable merge with the highest learned priority, repeatedly and from left to right, until none applies. The result depends only on the word and the merges.",
  ["inputs"], "all words and merge lists",
  "Doctests encode seven words.",
  ["codeprep/bpepkg/bpe_encode.py"], "encode()")
p("C37", "Learning in steps equals learning at once",
  "Learning n merges and then continuing to m merges gives the same codes as learning m merges from scratch. Each merge chosen is the most frequent pair at that time.",
  ["histories", "inputs"], "all vocabularies and step sizes",
  "One test learns 100 and then 150 merges.",
  ["codeprep/bpepkg/bpe_learn.py", "codeprep/pipeline/bpelearner.py"], "do_merges, merge_vocab, PriorityCounter")
p("C38", "Vocabulary counts equal the token counts of the corpus",
  "The number recorded for each word equals its number of occurrences in the preprocessed corpus. The sum of all counts equals the corpus size.",
  ["inputs"], "all corpora",
  "Tests do not compare the numbers.",
  ["codeprep/pipeline/vocab.py"], "get_vocab, merge of counters")
p("C39", "Identifiers are split at the conventional places",
  "Identifiers are split at underscores, between letters and digits and at changes of case, and nowhere else, for letters of every script. Stemming and Ronin splitting keep the text they are specified to keep.",
  ["inputs"], "all identifiers",
  "Tests split about twenty identifiers.",
  ["codeprep/parse/subtokens.py", "codeprep/stemming.py"], "regular expression in split_identifier; external splitters")
p("C40", "The modification stamp changes whenever the dataset changes",
  "Any change of the dataset between two runs leads to a different stamp and therefore to recomputation.",
  ["histories"], "all sequences of changes",
  "Tests mock the stamp.",
  ["codeprep/dirutils.py"], "stamp with one second resolution, limited number of entries")
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
