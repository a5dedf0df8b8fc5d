NOT_APPLICABLE = []
BOUND = 'Exhaustive within the stated bounds of text length, alphabet and option sets; nothing is sampled. Texts outside of the alphabets and lengths are not covered.'

prop('C01', 'No source content is lost, invented or reordered by unsplit tokenization',
     'For every text in every language, concatenating the tokens of unsplit tokenization (with or without whole string literals, no other option) gives exactly the visible characters of the text, in order. The only differences allowed are numbers written in lower case and the end-of-line marker which closes a one-line comment.',
     ['inputs'], 'all texts; explored: all sequences of up to 2 (thorough: 3-4) of ~85 lexemes, all strings over 14 characters up to length 4 (5), every BMP-plane prefix (thorough: every Unicode code point) in two contexts, snippets of 18 languages (thorough: all Pygments lexers)',
     TESTS + ' and mocked lexer outputs; losing a character needs a particular lexeme, neighbour or code point.',
     TEXT + TOK, [('token matchers', 'codeprep/parse/core.py: _convert'), ('word scanner', 'codeprep/parse/subtokens.py: split_into_words, split_string')],
     OBS[:1], ENUM, note=BOUND)
prop('C02', 'Splitting is lossless: subtokens join back to the full tokens',
     'In every splitting mode that keeps case (camel/snake, numbers, ronin, characters, BPE), the subtokens between two word boundaries, with the word markers taken away, join to exactly the full token that unsplit tokenization gives at the same position (with whole string literals for characters and BPE). The number, order and types of the full tokens are the same.',
     ['inputs', 'configurations'], 'all texts x splitting modes x no_spaces/no_com/no_str/max_str_length',
     TESTS + ' per mode and never compare two modes with each other.',
     TEXT + TOK + ['codeprep/bpepkg/bpe_encode.py'], [('subword representation', 'codeprep/tokens/containers.py: preprocessed_repr'), ('BPE encoding', 'codeprep/bpepkg/bpe_encode.py: encode')],
     OBS, ENUM, note=BOUND)
prop('C03', 'Metadata describes the token list exactly',
     'The returned word boundaries start at 0, increase strictly, end at the number of subtokens and delimit exactly the full tokens; there is one type per full token and it names what the token is; every listed non-processable token occurs in the output. The full-token and subtoken iterators reproduce exactly this partition, in order and with the right full-token indices, and reject boundaries that do not fit. The check of metadata accepts exactly the boundaries that agree with the end marks of the subtokens, and metadata joined to other ones describe the joined list.',
     ['inputs', 'configurations'], 'all texts x modes x options; all partitions of up to 7 subtokens for the iterators',
     'Tests check metadata for hand-picked token lists; errors appear only for particular neighbours (empty tokens, removed whitespace, comments).',
     ['codeprep/preprocess/metadata.py', 'codeprep/preprocess/core.py', 'codeprep/subtokens.py'] + TOK, [('metadata accumulation', 'codeprep/preprocess/metadata.py: update'), ('iterators', 'codeprep/subtokens.py')],
     OBS + ['codeprep.subtokens'], ENUM, note=BOUND)
prop('C04', 'Word markers delimit words exactly',
     'In character and BPE modes every full token, and nothing else, ends in the end-of-word mark. In the other splitting modes exactly the full tokens that consist of more than one word part are enclosed in word-start and word-end marks, and unsplit tokens carry no marks.',
     ['inputs', 'configurations'], 'all texts x modes x options', TESTS + ' with few words that are split.',
     TOK + ['codeprep/pipeline/to_repr.py'], [('word boundary marks', 'codeprep/tokens/containers.py: wrap_in_word_boundaries_if_necessary'), ('end marks', 'codeprep/pipeline/to_repr.py: insert_and_word_tokens')],
     OBS, ENUM, note=BOUND)
prop('C05', 'Case encoding is reversible',
     'With case encoding on, every word part that can be restored is given in lower case, preceded by the marker for a capitalized or an all-capitals word exactly when its original had that form. Applying the markers to the words yields exactly the tokens of the same mode without case encoding.',
     ['inputs', 'configurations'], 'all identifiers up to 5 (6) characters over 9 characters with and without case, every alphabetic code point of Unicode in 10 contexts, texts as above',
     TESTS + ' with ASCII identifiers; case mapping of Unicode letters is irregular.',
     ['codeprep/tokens/word.py', 'codeprep/tokens/containers.py', 'codeprep/prepconfig.py'], [('canonic form and capitalization', 'codeprep/tokens/word.py: Word')],
     ['codeprep.api.text.basic'], ENUM, note=BOUND)
prop('C06', 'Identifiers and numbers are split at exactly the documented places',
     'An identifier is split exactly before a capital that starts a capitalized word, between runs of capitals, small letters, digits and underscores, and around every other letter; a number is split into its characters exactly when number splitting is on. Ronin and stemming are applied to each of these parts and to nothing else.',
     ['inputs', 'configurations'], 'all identifiers up to 5 (6) characters over 9 characters, up to 6 (7) ASCII characters, all alphabetic code points, all number-like strings up to 5 (6)',
     TESTS + ' of typical identifiers.',
     ['codeprep/parse/subtokens.py', 'codeprep/prepconfig.py'] + TOK, [('identifier regex', 'codeprep/parse/subtokens.py: split_identifier'), ('splitters', 'codeprep/prepconfig.py: get_word_splitter, get_number_splitter')],
     ['codeprep.api.text.basic'], ENUM, note=BOUND + ' spiral.ronin is not installed: a lossless stand-in takes its place.')
prop('C07', 'Comment and string placeholders replace exactly what they should',
     'With no_com every comment becomes exactly one placeholder, with no_str every string literal becomes exactly one placeholder, and with max_str_length exactly the literals whose length including the quotes exceeds the limit become an empty literal (unless no_str is set). Nothing else in the output changes.',
     ['inputs', 'configurations'], 'all texts x modes x placeholder options; every literal length 0..66 x every limit 0..61 (thorough: 130 x 131)',
     TESTS + ' with one or two lengths.',
     ['codeprep/tokens/containers.py', 'codeprep/api/common.py', 'codeprep/prepconfig.py'], [('placeholders', 'codeprep/tokens/containers.py: Comment, StringLiteral'), ('limit encoding', 'codeprep/api/common.py: create_str_value')],
     OBS, ENUM, note=BOUND)
prop('C08', 'Line breaks and indentation are kept, and removed only on request',
     'Without no_spaces, every line break of the text gives one newline token (line breaks at the very beginning and end of the text and inside literals excepted), and indentation gives one tab token per tab stop of four columns. With no_spaces exactly these tokens disappear and nothing else changes.',
     ['inputs', 'configurations'], 'all strings up to length 6 (7) over blanks, tabs, newlines, a letter, a quote and a comment; texts as above x modes',
     TESTS + ' with regular indentation.',
     TEXT + ['codeprep/tokens/whitespace.py'], [('whitespace matchers', 'codeprep/parse/matchers.py'), ('whitespace tokens', 'codeprep/tokens/whitespace.py')],
     OBS, ENUM, note=BOUND)
prop('C09', 'no_unicode removes exactly the non-ASCII content',
     'With no_unicode, every word that contains a non-ASCII character becomes one placeholder in the unsplit and word-splitting modes, and in whole literals, character and BPE modes every maximal run of non-ASCII characters becomes one placeholder character, blanks of literals staying as they are. All other tokens stay as they are without the option.',
     ['inputs', 'configurations'], 'all texts x modes; all code points below 0x1000 (thorough: all) in two contexts',
     TESTS + ' with one umlaut.',
     ['codeprep/noneng.py', 'codeprep/tokens/noneng.py', 'codeprep/tokens/containers.py', 'codeprep/parse/subtokens.py'], [('non-English words', 'codeprep/tokens/noneng.py'), ('runs', 'codeprep/noneng.py: replace_non_ascii_seqs')],
     OBS, ENUM, note=BOUND)
prop('C10', 'The end-of-file token is appended exactly once and changes nothing else',
     'With append_eof the output is the output without it followed by exactly one end-of-file token, which is a full token of its own with its own boundary and type and is listed as non-processable; this holds for empty text and text ending in any kind of blanks.',
     ['inputs', 'configurations'], 'all texts x modes x options', TESTS + ' with non-empty text.',
     ['codeprep/api/text.py', 'codeprep/tokens/word.py', 'codeprep/preprocess/metadata.py'], [('end of file', 'codeprep/api/text.py: preprocess')],
     OBS, ENUM, note=BOUND)
prop('C11', 'Character mode yields single characters',
     'In character mode every identifier, number (other than the literals 0 and 1), comment word and string literal is given as its single characters followed by the end-of-word mark; keywords, operators, punctuation, whitespace and placeholders stay whole. The full tokens and their types are those of unsplit tokenization with whole literals.',
     ['inputs', 'configurations'], 'all texts x options; all code points below 0x2800 (thorough: all)',
     TESTS + '; escapes of the BPE machinery behind this mode are input dependent.',
     ['codeprep/api/text.py', 'codeprep/bpepkg/bpe_encode.py', 'codeprep/prepconfig.py', 'codeprep/pipeline/to_repr.py'], [('BPE with 0 merges', 'codeprep/bpepkg/bpe_encode.py: get_bpe_subwords')],
     ['codeprep.api.text.chars'], ENUM, note=BOUND)
prop('C12', 'Keywords, operators and other fixed tokens are never split',
     'In every mode, keywords, operators, punctuation, whitespace and other non-word characters appear as single unsplit tokens in the same order as in unsplit tokenization. The set of non-processable tokens in the metadata is exactly the set of these tokens that occur in the output (plus the end-of-file token if requested).',
     ['inputs', 'configurations'], 'all texts x modes x options', TESTS + '; the set is built up over all tokens of a text.',
     ['codeprep/tokens/word.py', 'codeprep/preprocess/metadata.py', 'codeprep/preprocess/core.py'] + TEXT, [('non-processable tokens', 'codeprep/tokens/word.py: NonProcessibleToken')],
     OBS, ENUM, note=BOUND)

CORP = ['codeprep/api/corpus.py', 'codeprep/pipeline/dataset.py', 'codeprep/pipeline/stages.py', 'codeprep/pipeline/parse_projects.py', 'codeprep/pipeline/to_repr.py', 'codeprep/fileutils.py', 'codeprep/dirutils.py']
CAPI = ['codeprep.api.corpus', 'PreprocessedCorpus.get_file_iterator', 'PreprocessedCorpus.load_vocab', 'PreprocessedCorpus.get_corpus_size']
SCHED = 'stateless exploration of the real code under a controlled process scheduler (delay-bounded, exhaustive within the bound)'
CRASH = 'exhaustive crash-point and torn-write exploration of the real code, each followed by a recovery run'
HIST = 'exhaustive enumeration of operation histories on the real code'
SB = 'Processes, queues, locks and pools are replaced by a controlled runtime (mc/sim.py); real operating system processes are not scheduled.'

prop('C19', 'A corpus run gives for every selected file what the text functions give',
     'A corpus run writes exactly one preprocessed file per selected source file (all files, or those whose name ends in one of the given extensions; files in linked directories included, linked files excluded) at the same relative path, lists exactly these files, and puts nothing else there. Decoding the escapes of a preprocessed file gives the tokens which the text function with the same options and the extension of the file gives for the decoded contents of the file, followed by the end-of-file token (and possibly a newline token for the end of the last line). This holds for any bytes in the file (utf-8, latin1, NUL, empty) and any file name, for one file as for a directory, with and without caching.',
     ['inputs', 'configurations'], 'all corpora; explored: 39 file contents x 7 extensions x modes x options; all sets of up to 3 (thorough: 4) of 21 kinds of paths x extension filters; single files; all combinations of vocabulary, caching, output folder and repetition',
     TESTS + ' and one test corpus with ordinary names and contents.',
     CORP, [('selection of files', 'codeprep/fileutils.py: walk_and_save; codeprep/pipeline/dataset.py'), ('file representation', 'codeprep/pipeline/to_repr.py'), ('parsing', 'codeprep/pipeline/parse_projects.py')],
     CAPI, ENUM + ' (mini corpora on a private file system)', note='Exhaustive over the listed contents, names and configurations. Text of the token: C01-C12.')
prop('C20', 'The result does not depend on the number or scheduling of workers',
     'For every number of workers, every distribution of files over them and every interleaving of their steps, preprocessing a corpus, counting its size and learning BPE codes give the same files, the same numbers and the same learned codes as one worker, no file is left out or listed although it was not written, and the run comes to an end.',
     ['schedules'], 'all interleavings of the pool workers and the parent with up to 1-2 (thorough: 2-3) deviations from the default schedule, corpora of 2-5 files, 2-3 workers, several chunk sizes',
     'Tests run on one corpus with whatever schedule occurs; a race needs a particular order of steps.',
     CORP + ['codeprep/pipeline/bpelearner.py', 'codeprep/bpepkg/bpe_learn.py'], [('worker pools', 'codeprep/pipeline/parse_projects.py: run; codeprep/pipeline/to_repr.py: run')],
     CAPI, SCHED, note=SB)
prop('C21', 'The vocabulary has the exact token counts under every schedule',
     'For every number of files, workers and chunks and every interleaving of the merging processes and of the delivery of their messages, computing the vocabulary comes to an end without error, every token of the preprocessed files is listed exactly once with its exact number of occurrences, most frequent first, nothing else is listed, and the recorded statistics (the vocabulary size, and the last line: size and number of placeholders for non-English words) are those of these entries.',
     ['schedules', 'inputs'], 'all interleavings of the merger processes, the parent and the queue deliveries with up to 2 (thorough: 3) deviations; 1-22 files, 1-3 workers (thorough: 45 files, 4 workers), small and real numbers of chunks and groups',
     'Tests merge vocabularies in one process; lost or doubled partial vocabularies need a particular interleaving.',
     ['codeprep/pipeline/vocab.py', 'codeprep/pipeline/vocabloader.py'], [('merge protocol', 'codeprep/pipeline/vocab.py: VocabMerger, mapify_tasks, calc_vocab')],
     ['PreprocessedCorpus.load_vocab', 'the vocab and vocabsize files'], SCHED, note=SB + ' The numbers of chunks and groups are made small in some configurations so that all merges are reached.')
prop('C22', 'Computing the vocabulary survives being interrupted at any point',
     'If the computation of the vocabulary is killed, or a write fails, at any point, running it again gives the exact counts of the preprocessed files, the same as an uninterrupted run: no partial result is counted twice or lost, and no incomplete file is taken for a complete one.',
     ['crash_points', 'schedules'], 'every file operation x every torn-write variant (nothing, a half, all but one byte, up to a line end) x {killed, write error} x {next run in the same or a later second}; thorough: a second interruption during the second run, and all schedules with one deviation',
     'Tests never interrupt a run; what is wrong shows only in the next run.',
     ['codeprep/pipeline/vocab.py', 'codeprep/pipeline/vocabloader.py', 'codeprep/dirutils.py'], [('partial vocabularies', 'codeprep/pipeline/vocab.py'), ('resuming', 'codeprep/pipeline/vocab.py: calc_vocab')],
     ['PreprocessedCorpus.load_vocab', 'PreprocessedCorpus.get_corpus_size'], CRASH, note='A file is written as a whole when it is closed, in any prefix; directory operations are atomic and ordered.')
prop('C23', 'Preprocessing a corpus survives being interrupted at any point',
     'If preprocessing a corpus (listing the files, parsing, writing the preprocessed files, counting the size) is killed, or a write fails, at any point, running it again gives the same files with the same contents and the same counts as an uninterrupted run. No torn file is taken for a complete one and no file is left out.',
     ['crash_points'], 'every file operation x every torn-write variant x {killed, write error} x {next run in the same or a later second}; three configurations (thorough: six, and a second interruption)',
     'Tests never interrupt a run; what is wrong shows only in the next run.',
     CORP, [('temporary files which are renamed', 'codeprep/pipeline/parse_projects.py, codeprep/pipeline/to_repr.py'), ('readiness of a stage', 'codeprep/pipeline/dataset.py: set_ready, ready, archive')],
     CAPI, CRASH, note='A file is written as a whole when it is closed, in any prefix; directory operations are atomic and ordered.')
prop('C15', 'BPE splits words by applying the merges in order of priority',
     'Splitting a word with a list of merges repeatedly joins the adjacent pair that comes first in the list (every occurrence of it, from left to right) until no listed pair is left, and nothing else is joined. Escaped characters count as one symbol, the result is the same whether or not the word is in the cache and however often it is asked for, and the parts join to the word.',
     ['inputs', 'configurations'], 'all lists of merges x words; explored: every buildable list of up to 2-4 (thorough: 3-6) merges over small alphabets (with the escape character) x every word up to length 5-9 (14); every result of a merge of the predefined lists alone, with a letter before or after it and every ordered pair of 120-160 (1000) of them',
     'Tests split about ten words with three lists of merges; an order or overlap mistake needs a particular list and word.',
     ['codeprep/bpepkg/bpe_encode.py', 'codeprep/bpepkg/merge.py', 'codeprep/bpepkg/cache.py', 'codeprep/bpepkg/bpe_config.py'],
     [('encoding a word', 'codeprep/bpepkg/bpe_encode.py: encode, encode_word, get_bpe_subwords')],
     ['codeprep.bpepkg.bpe_encode.get_bpe_subwords', 'codeprep.api.text.bpe'], ENUM, note=BOUND + ' Each case is compared with a reference which rescans the word for the best pair after every merge.')
prop('C16', 'Learned merges are the greedy ones',
     'Learning n merges from a base vocabulary gives, step by step, a pair which at that point is the most frequent one in the whole vocabulary (any of them if several are), recorded with its exact frequency; n merges are made unless nothing is left to be merged, and the resulting words are segmented exactly as these merges segment them. Learning from a dataset uses all full tokens of the selected files that can be split, with their exact counts, comments left out and long strings emptied, and what is learned is what bpe() then uses.',
     ['inputs', 'configurations'], 'all vocabularies; explored: all words up to length 10 (14) over two letters, all pairs of words up to length 5 (6) and all triples up to length 3 (4) with different frequencies, words over 20 special characters, 11 corpora x 5 options x 4 (7) numbers of merges through the command line',
     'Tests learn from five words; the incremental pair counts go wrong only for overlapping or repeated pairs.',
     ['codeprep/bpepkg/bpe_learn.py', 'codeprep/pipeline/bpelearner.py', 'codeprep/cli/impl.py', 'codeprep/pipeline/bperegistry.py', 'codeprep/util.py'],
     [('incremental pair counts', 'codeprep/bpepkg/bpe_learn.py: do_merges; codeprep/util.py: PriorityCounter'), ('base vocabulary', 'codeprep/pipeline/bpelearner.py: get_base_vocab')],
     ['codeprep.bpepkg.bpe_learn.do_merges', 'codeprep learn-bpe', 'codeprep.api.text.bpe'], ENUM, note=BOUND + ' Frequencies are compared with a recount of all pairs after every merge.')

BPEF = ['codeprep/bpepkg/merge.py', 'codeprep/bpepkg/cache.py', 'codeprep/bpepkg/bpe_encode.py', 'codeprep/pipeline/bperegistry.py']
prop('C17', 'What is saved is read back unchanged',
     'Merges, cached splits, base and learned vocabularies, literal strings and non-processable tokens that are written to files are read back exactly as they were, for every character that may occur in source code (blanks except inside the symbols of merges, escape characters, separators, line ends of all kinds), and reading the first n merges gives the first n.',
     ['inputs'], 'all strings; explored: every Unicode code point alone, all strings up to 3 (4) characters over the characters with a meaning in one of the file formats',
     'Tests write and read a few ASCII entries; a separator or line end inside an entry breaks the file format.',
     BPEF + ['codeprep/pipeline/vocab.py', 'codeprep/preprocess/metadata.py', 'codeprep/util.py'],
     [('file formats', 'codeprep/bpepkg/merge.py: dump_merges, read_merges; codeprep/bpepkg/cache.py; codeprep/util.py')],
     ['codeprep.bpepkg.merge', 'codeprep.bpepkg.cache', 'codeprep.vocab', 'codeprep.preprocess.metadata'], ENUM, note=BOUND)
prop('C18', 'A bpe codes id always means the same merges',
     'After every sequence of learn-bpe commands, each id that codeprep says is available gives exactly the n greedy merges of the dataset as it was when it was learned, however many merges are learned before or after it and from whichever datasets; ids that are assigned automatically are new, ids that are not known or already taken by other codes are refused with an explanation, and ids learned earlier do not change.',
     ['histories'], 'all sequences of up to 3 (thorough: 4) of 17 operations (learning from 5 datasets with different numbers, options and ids, editing, preprocessing, using)',
     'Tests learn once; numbers reused from earlier learning and ids go wrong only after particular sequences.',
     ['codeprep/pipeline/bperegistry.py', 'codeprep/pipeline/bpelearner.py', 'codeprep/cli/impl.py', 'codeprep/prepconfig.py', 'codeprep/api/text.py'],
     [('ids', 'codeprep/pipeline/bperegistry.py'), ('continuing from earlier merges', 'codeprep/pipeline/bpelearner.py: run')],
     ['codeprep learn-bpe', 'codeprep.api.text.bpe'], HIST, note='Learning runs with the worker pool of the controlled runtime; no interleaving is explored here (see C20).',
     state=[('user config folder', 'learned merges per dataset and configuration', 'codeprep/config.py: USER_CONFIG_DIR')])
prop('C24', 'Learning BPE codes survives being interrupted at any point',
     'If learn-bpe is killed, or a write fails, at any point, every id that is then listed as available gives the right merges, codes learned before are unharmed, and running the command again succeeds and gives what an uninterrupted run gives.',
     ['crash_points'], 'every file operation x every torn-write variant x {killed, write error}, for first-time learning, learning more merges, fewer merges and with an explicit id',
     'Tests never interrupt learning; what is wrong shows only in later commands.',
     ['codeprep/pipeline/bpelearner.py', 'codeprep/pipeline/bperegistry.py', 'codeprep/bpepkg/merge.py', 'codeprep/pipeline/vocabloader.py'],
     [('order of the written files', 'codeprep/pipeline/bpelearner.py: run')], ['codeprep learn-bpe', 'codeprep.api.text.bpe'], CRASH,
     note='A file is written as a whole when it is closed, in any prefix; directory operations are atomic and ordered.')
prop('C25', 'After any edits, a corpus run gives what a first run would give',
     'After every sequence of edits of the dataset (changing, adding, deleting, renaming, moving and replacing files and linked folders), deletions of outputs and caches in whole or in part, and runs with other configurations, a corpus run gives exactly the files, vocabulary and counts of a first run in an empty home. Stale parsed or preprocessed files are never used.',
     ['histories'], 'all sequences of up to 2 (thorough: 3) of 30 operations x configurations, with a run after each operation or only at the end; datasets of several files or of one file',
     'Tests run once in an empty home; staleness needs a particular edit after a particular run.',
     ['codeprep/pipeline/dataset.py', 'codeprep/dirutils.py', 'codeprep/fileutils.py', 'codeprep/api/corpus.py', 'codeprep/pipeline/stages.py', 'codeprep/pipeline/vocabloader.py'],
     [('last modification', 'codeprep/dirutils.py: get_dir_last_modification'), ('archiving and readiness', 'codeprep/pipeline/dataset.py')],
     CAPI, HIST, note='Every operation happens in a second of its own and sets the modification time. Overwriting an output and removing its readiness marker together is not explored.')
prop('C26', 'Runs that ask for different things do not mix up their results',
     'For any two runs of different datasets, modes, options, extensions or output folders one after the other, the second run gives exactly what it gives alone and leaves the output files of the first as they were, unless both use the same dataset, configuration and output folder.',
     ['configurations', 'histories'], 'all ordered pairs of 56 requests (datasets with the same name or names containing separators, every mode and option, extension lists with separators, output folders, vocabularies)',
     'Tests run one configuration each; two configurations must map to the same path to interfere.',
     ['codeprep/pipeline/dataset.py', 'codeprep/prepconfig.py', 'codeprep/api/corpus.py', 'codeprep/api/common.py', 'codeprep/pipeline/vocabloader.py'],
     [('names of outputs and caches', 'codeprep/pipeline/dataset.py: DatasetSubdir, dataset id'), ('config string', 'codeprep/prepconfig.py: PrepConfig')],
     CAPI, HIST + ' (pairs of configurations)', note='One case that the naming of outputs and caches cannot tell apart is listed as a known finding.')
prop('C27', 'Vocabulary, counts and corpus size agree with the files',
     'The corpus size is the number of tokens in the preprocessed files, and the vocabulary lists exactly their tokens, unescaped, with their numbers of occurrences, so that the counts add up to the corpus size. This holds for every character that occurs in the files, and for the vocabulary of a corpus, the one read back from its file, and the one computed by the vocabulary command for the files of a folder with a given ending. Limiting a vocabulary to n entries keeps its most frequent ones, those with equal counts all or none, at most n together.',
     ['inputs', 'configurations'], 'all corpora; explored: 39 contents x modes x options, a file for every kind of token, blocks of all code points of the Basic Multilingual Plane (thorough: of Unicode)',
     'Tests count one small corpus of ASCII files.',
     ['codeprep/pipeline/vocab.py', 'codeprep/pipeline/vocabloader.py', 'codeprep/pipeline/dataset.py', 'codeprep/api/corpus.py'],
     [('counting', 'codeprep/pipeline/vocab.py: get_vocab, limit_max_vocab; codeprep/preprocess/placeholders.py; codeprep/cli/vocab.py')], CAPI, ENUM, note=BOUND)
prop('C28', 'The vocabularies kept for BPE are the exact ones',
     'For every dataset, options and history of learning, the vocabularies that codeprep keeps for BPE are exact: the base vocabulary has every full token that may be split with its number of occurrences, the other tokens are exactly those that may not be split, and the vocabulary of n merges is the result of splitting the base vocabulary with the first n merges together with the other tokens.',
     ['inputs', 'histories'], 'corpora x options x sequences of numbers of merges learned one after the other',
     'Tests cover the vocabularies of one dataset and one number of merges.',
     ['codeprep/pipeline/vocabloader.py', 'codeprep/pipeline/bpelearner.py', 'codeprep/bpepkg/bpe_learn.py', 'codeprep/pipeline/bperegistry.py'],
     [('vocabularies', 'codeprep/pipeline/vocabloader.py: all, nonbpe, base, bpe')], ['codeprep.pipeline.vocabloader', 'codeprep.pipeline.bpelearner'], HIST, note=BOUND)

prop('C13', 'A call gives the same whatever was called before it',
     'Every text and corpus function gives what it gives as the first call of a process, whatever other functions with whatever modes, options and bpe codes were called before it, whether or not those calls failed, and whatever the caller does to the lists and the metadata it was given. This includes bpe() with force_reinit_bpe_data=False, as long as its bpe codes id is that of the previous call of bpe().',
     ['histories'], 'all sequences of up to 3 (thorough: 4) of 18 calls (text functions, corpus functions, refused ids, bpe data kept) in one process, the caller overwriting every list it is given',
     'Tests make single calls or repeat the same one; data left behind by one call shows in another one.',
     ['codeprep/api/text.py', 'codeprep/pipeline/to_repr.py', 'codeprep/bpepkg/bpe_encode.py', 'codeprep/bpepkg/merge.py', 'codeprep/api/corpus.py'],
     [('bpe data kept between calls', 'codeprep/pipeline/to_repr.py: init_bpe_data'), ('cached splits', 'codeprep/bpepkg/bpe_encode.py: get_bpe_subwords')],
     ['codeprep.api.text', 'codeprep.api.corpus'], HIST,
     state=[('global_bpe_data', 'merges and cache of the last bpe codes', 'codeprep/pipeline/to_repr.py')], note='Calls in different threads are not covered. spiral.ronin is replaced by a stand-in.')
prop('C14', 'Options mean the same on the command line and in the functions',
     'Every command line that follows the usage text prints (or writes) what the function of the same name gives with the corresponding arguments: every option in its long and short spelling, alone and combined, with a text or a dataset, with and without extension, output path and vocabulary. Options that exclude each other are refused. Different combinations of options have different config strings, each config string is read back as the combination it was made from, and combinations that are not supported are refused.',
     ['configurations'], 'all combinations of the options of nosplit, chars, basic and bpe in three spellings and orders; all letters of config strings; all arguments of the functions with 13 limits of string lengths',
     'Tests check about twenty argument lists against mocks.',
     ['codeprep/cli/spec.py', 'codeprep/cli/impl.py', 'codeprep/api/common.py', 'codeprep/prepconfig.py', 'codeprep/api/text.py', 'codeprep/api/corpus.py'],
     [('command line', 'codeprep/cli/impl.py: create_prep_config_from_args, create_split_value_from_args'), ('config string', 'codeprep/prepconfig.py: PrepConfig; codeprep/api/common.py: create_prep_config')],
     ['codeprep.cli.spec.parse_and_run', 'codeprep.api.text', 'codeprep.api.corpus', 'codeprep.prepconfig.PrepConfig'], ENUM, note=BOUND + ' Command lines which docopt accepts although the usage text does not allow them (e.g. -r without -n) are not judged.')
prop('C29', 'Merges learned from running text are the greedy ones',
     'Learning from running text (wild_bpe) gives, step by step, a pair of neighbouring symbols that at that point has the most occurrences in the text (overlapping ones counted), records exactly how often it is merged (from left to right, without overlaps), makes at most the requested number of merges and stops early only when a single symbol is left. A text, file or folder of any length is learned from as a whole and once, blanks shown as non-breaking ones.',
     ['inputs'], 'all texts; explored: all texts up to length 40 (120) over one, 12 (17) over two, 8 (11) over three characters, repeated blocks up to length 3 (4), all limits for texts of length 7',
     'Tests learn from four texts; the indices of positions and neighbours go wrong only for particular overlaps.',
     ['codeprep/bpepkg/wild_bpe.py', 'codeprep/util.py'], [('indices of positions and neighbours', 'codeprep/bpepkg/wild_bpe.py: update_location_index, update_neighbour_index'), ('priorities', 'codeprep/util.py: PriorityCounter')],
     ['codeprep.bpepkg.wild_bpe.run_from_text'], ENUM, note=BOUND + ' codeprep.bpepkg.wild_bpe.getsize is replaced, since PyPy does not support sys.getsizeof.')
P.sort(key=lambda p: p['prop']['id'])
