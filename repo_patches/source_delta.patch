From eaf7147e504612d69c42930c1c4424c0ad29709f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:31 +0000
Subject: [PATCH 01/27] fix: keep the case of every letter when a capitalized
 word is written back

---
 codeprep/tokens/word.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/codeprep/tokens/word.py b/codeprep/tokens/word.py
index 3319e61..3cee299 100644
--- a/codeprep/tokens/word.py
+++ b/codeprep/tokens/word.py
@@ -49,9 +49,14 @@ class Word(ParsedSubtoken):
     def get_canonic_form(self) -> str:
         return self.canonic_form
 
+    @staticmethod
+    def _is_upper(s) -> bool:
+        # letters like 'ẞ' or 'İ' cannot be restored by upper() after they have been lowercased
+        return s.isupper() and s.lower().upper() == s
+
     @staticmethod
     def _is_strictly_upper(s) -> bool:
-        return s.isupper() and not s.lower().isupper()
+        return Word._is_upper(s) and not s.lower().isupper()
 
     @staticmethod
     def _check_canonic_form_is_valid(canonic_form) -> None:
@@ -86,7 +91,7 @@ class Word(ParsedSubtoken):
         if self.capitalization == Word.Capitalization.UNDEFINED or self.capitalization == Word.Capitalization.NONE:
             return self.canonic_form
         elif self.capitalization == Word.Capitalization.FIRST_LETTER:
-            return self.canonic_form.capitalize()
+            return self.canonic_form[0].upper() + self.canonic_form[1:]
         elif self.capitalization == Word.Capitalization.ALL:
             return self.canonic_form.upper()
         else:
@@ -109,9 +114,9 @@ class Word(ParsedSubtoken):
 
         if s.islower() or not s:
             return cls(s, Word.Capitalization.NONE)
-        elif s.isupper():
+        elif Word._is_upper(s):
             return cls(s.lower(), Word.Capitalization.ALL)
-        elif s[0].isupper():
+        elif Word._is_upper(s[0]):
             return cls(s[0].lower() + s[1:], Word.Capitalization.FIRST_LETTER)
         else:
             return cls(s, Word.Capitalization.UNDEFINED)
-- 
2.43.0


From 7b032b4311f5dd72bec8f0932aa8721a38d6bb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:26 +0000
Subject: [PATCH 02/27] fix: count tabs as indentation in whitespace longer
 than one character

---
 codeprep/parse/matchers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/parse/matchers.py b/codeprep/parse/matchers.py
index 5bc5062..55ec9a6 100644
--- a/codeprep/parse/matchers.py
+++ b/codeprep/parse/matchers.py
@@ -92,7 +92,7 @@ class WhitespaceMatcher(object):
         return value.strip() == ''
 
     def transform(self, value: str) -> List[Tab]:
-        return [Tab()] * (len(value) // 4)
+        return [Tab()] * (len(value.expandtabs(4)) // 4)
 
 
 class TabMatcher(object):
-- 
2.43.0


From 70e8f6c9cc08ae5576ade60245cabf02cc673064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:26 +0000
Subject: [PATCH 03/27] fix: do not modify cached bpe splits when unescaping
 them

---
 codeprep/bpepkg/bpe_encode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codeprep/bpepkg/bpe_encode.py b/codeprep/bpepkg/bpe_encode.py
index b253605..5d9cb9f 100644
--- a/codeprep/bpepkg/bpe_encode.py
+++ b/codeprep/bpepkg/bpe_encode.py
@@ -40,8 +40,8 @@ def unescape(parts: List[str]):
     if parts[-1][-1] != ESCAPE_CHAR:
         raise ValueError(f"There should be {ESCAPE_CHAR} at the end, however this is what was passed: {parts}")
 
-    parts[-1] = parts[-1][:-1]
-    return list(map(lambda p: p.replace(ESCAPE_CHAR + '@', ESCAPE_CHAR), parts))
+    unescaped_parts = parts[:-1] + [parts[-1][:-1]]
+    return list(map(lambda p: p.replace(ESCAPE_CHAR + '@', ESCAPE_CHAR), unescaped_parts))
 
 
 def to_char_list(word: str):
-- 
2.43.0


From 170d5157b471934defe653c6c82f42ae5388359d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:07 +0000
Subject: [PATCH 04/27] fix: write partial vocabularies completely before they
 are used for resuming

---
 codeprep/pipeline/vocab.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index 0cdfa3d..97cb900 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -197,7 +197,9 @@ class VocabMerger(multiprocessing.Process):
 
         first.renew_id()
         path_to_new_file = os.path.join(self.path_to_dump, f'{first_id}_{second_id}_{first.id}.{PARTVOCAB_EXT}')
-        pickle.dump(first, open(path_to_new_file, 'wb'))
+        with open(f'{path_to_new_file}.part', 'wb') as f:
+            pickle.dump(first, f)
+        os.rename(f'{path_to_new_file}.part', path_to_new_file)
         finish_file_dumping(path_to_new_file)
 
         return first, new_words
@@ -219,13 +221,15 @@ def create_and_dump_partial_vocab(param: Tuple[List[str], str, int]) -> PartialV
     partial_vocab = PartialVocab(vocab, chunk)
     path = os.path.join(path_to_dump, f'{partial_vocab.id}.{PARTVOCAB_EXT}')
     logger.debug(f"Dumping part vocab to {path}")
-    pickle.dump(partial_vocab, open(path, 'wb'))
+    with open(path, 'wb') as f:
+        pickle.dump(partial_vocab, f)
     return partial_vocab
 
 
 def finish_file_dumping(path_to_new_file: str) -> None:
     try:
-        pickle.load(open(path_to_new_file, 'rb'))
+        with open(path_to_new_file, 'rb') as f:
+            pickle.load(f)
     except EOFError:
         # file has not been written properly
         os.remove(path_to_new_file)
@@ -292,7 +296,8 @@ def load_partial_vocabs(path: str) -> List[PartialVocab]:
     task_list = []
     for file in os.listdir(path):
         if file.endswith(PARTVOCAB_EXT):
-            part_vocab = pickle.load(open(os.path.join(path, file), 'rb'))
+            with open(os.path.join(path, file), 'rb') as f:
+                part_vocab = pickle.load(f)
             if not isinstance(part_vocab, PartialVocab):
                 raise TypeError(f"Object {str(part_vocab)} must be VocabMerger version {part_vocab.VERSION}")
             task_list.append(part_vocab)
-- 
2.43.0


From d81160845dd3594c06f74a50d31fa7fb9d9679e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 05/27] fix: never leave a half-written vocabulary that looks
 complete

---
 codeprep/pipeline/vocab.py       | 3 ++-
 codeprep/pipeline/vocabloader.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index 97cb900..b29111f 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -325,11 +325,12 @@ def partial_vocabs_ready(path_to_dump: str) -> bool:
 
 
 def _dump_vocab_dict(lst: List[Tuple[str, int]], file: str, to_literal=True) -> None:
-    with open(file, 'w') as f:
+    with open(f'{file}.part', 'w') as f:
         for word, freq in lst:
             if to_literal:
                 word = to_literal_str(word)
             f.write(f'{word}{VOCAB_DICT_DELIM}{freq}\n')
+    os.rename(f'{file}.part', file)
 
 
 VOCAB_DICT_DELIM = '\t'
diff --git a/codeprep/pipeline/vocabloader.py b/codeprep/pipeline/vocabloader.py
index ac8306b..9e9c535 100644
--- a/codeprep/pipeline/vocabloader.py
+++ b/codeprep/pipeline/vocabloader.py
@@ -49,7 +49,8 @@ def gather_non_bpe_vocab(dataset: Dataset):
         non_bpe_tokens.update(_load_vocab_set(os.path.join(part_nonbpe_vocab_dir, file)))
 
     non_bpe_tokens.update(list(placeholders.values()))
-    with open(dataset.path_to_nonbpe_vocab_file, 'w') as f:
+    with open(f'{dataset.path_to_nonbpe_vocab_file}.part', 'w') as f:
         for token in non_bpe_tokens:
             f.write(f'{to_literal_str(token)}\n')
+    os.rename(f'{dataset.path_to_nonbpe_vocab_file}.part', dataset.path_to_nonbpe_vocab_file)
     shutil.rmtree(part_nonbpe_vocab_dir)
\ No newline at end of file
-- 
2.43.0


From 2f44bb3f23c9f565c379a4cea9ddcfe4643a6052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 06/27] fix: do not lose or tear the non-bpe tokens of single
 files

---
 codeprep/pipeline/to_repr.py     | 6 ++++--
 codeprep/pipeline/vocabloader.py | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/codeprep/pipeline/to_repr.py b/codeprep/pipeline/to_repr.py
index 24de466..5e1c5f8 100644
--- a/codeprep/pipeline/to_repr.py
+++ b/codeprep/pipeline/to_repr.py
@@ -7,11 +7,11 @@ import logging
 import os
 import pickle
 import platform
+import uuid
 from multiprocessing.pool import Pool
 from typing import List, Tuple
 from typing import Optional
 
-import time
 from tqdm import tqdm
 
 from codeprep.bpepkg.bpe_encode import read_merges, BpeData
@@ -76,7 +76,9 @@ def preprocess_and_write(params: Tuple[bytes, bytes, PrepConfig, str], bpe_data:
         o.write(to_literal_str(to_token_str(repr)) + '\n')
 
     if part_nonbpe_vocab_folder:
-        save_metadata(metadata, os.path.join(part_nonbpe_vocab_folder, f'{os.path.basename(dest_file_path)}_-_{time.time()}'))
+        part_nonbpe_vocab_path = os.path.join(part_nonbpe_vocab_folder, uuid.uuid4().hex)
+        save_metadata(metadata, part_nonbpe_vocab_path + NOT_FINISHED_EXTENSION)
+        os.rename(part_nonbpe_vocab_path + NOT_FINISHED_EXTENSION, part_nonbpe_vocab_path)
 
     os.rename(not_finished_dest_file_path, dest_file_path)
 
diff --git a/codeprep/pipeline/vocabloader.py b/codeprep/pipeline/vocabloader.py
index 9e9c535..15fab94 100644
--- a/codeprep/pipeline/vocabloader.py
+++ b/codeprep/pipeline/vocabloader.py
@@ -8,7 +8,7 @@ import shutil
 from typing import Set, Dict
 
 from codeprep.pipeline.bperegistry import get_bpe_dir, get_base_vocab_dir, RESULTING_VOCAB_FILE_NAME
-from codeprep.pipeline.dataset import Dataset, NONBPE_VOCAB_FILENAME
+from codeprep.pipeline.dataset import Dataset, NONBPE_VOCAB_FILENAME, NOT_FINISHED_EXTENSION
 from codeprep.preprocess.placeholders import placeholders
 from codeprep.util import to_literal_str
 from codeprep.pipeline.vocab import _load_vocab_dict, _load_vocab_set, VOCAB_FILENAME
@@ -46,6 +46,8 @@ def gather_non_bpe_vocab(dataset: Dataset):
     for idx, file in enumerate(os.listdir(part_nonbpe_vocab_dir)):
         if idx % 569 == 0:
             print(f'Files processed: {idx}', end='\r')
+        if file.endswith(NOT_FINISHED_EXTENSION):
+            continue
         non_bpe_tokens.update(_load_vocab_set(os.path.join(part_nonbpe_vocab_dir, file)))
 
     non_bpe_tokens.update(list(placeholders.values()))
-- 
2.43.0


From 068a3e37ad2ce1e2b8cfa24a43a2a94ef4155d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:13 +0000
Subject: [PATCH 07/27] fix: publish learned bpe merges only when all their
 files are written

---
 codeprep/pipeline/bpelearner.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/codeprep/pipeline/bpelearner.py b/codeprep/pipeline/bpelearner.py
index b819945..629b594 100644
--- a/codeprep/pipeline/bpelearner.py
+++ b/codeprep/pipeline/bpelearner.py
@@ -4,6 +4,7 @@
 
 import logging
 import os
+import shutil
 from typing import Tuple, Dict, Set, Optional
 
 from codeprep.bpepkg.bpe_config import BpeConfig, BpeParam, BpeConfigNotSupported
@@ -14,7 +15,7 @@ from codeprep.bpepkg.merge import MergeList, read_merges, dump_merges
 from codeprep.pipeline import stages
 from codeprep.pipeline.bperegistry import get_max_merges, MERGES_FILE_NAME, MERGES_CACHE_FILE_NAME, \
     RESULTING_VOCAB_FILE_NAME, BPE_REASSEMBLED_VOCAB_FILE_NAME
-from codeprep.pipeline.dataset import Dataset
+from codeprep.pipeline.dataset import Dataset, NOT_FINISHED_EXTENSION
 from codeprep.pipeline.vocab import _dump_vocab_dict, _load_vocab_dict
 from codeprep.util import to_non_literal_str
 
@@ -69,18 +70,21 @@ def get_dir_with_most_merges(dataset_bpe_path, n_merges) -> Optional[str]:
 
 
 def save_results(split_base_vocab, merges, new_bpe_dir):
-
-    os.makedirs(new_bpe_dir)
+    not_finished_bpe_dir = new_bpe_dir + NOT_FINISHED_EXTENSION
+    if os.path.exists(not_finished_bpe_dir):
+        shutil.rmtree(not_finished_bpe_dir)
+    os.makedirs(not_finished_bpe_dir)
 
     resulting_vocab = create_resulting_vocab(split_base_vocab)
     resulting_vocab_sorted = sorted(resulting_vocab.items(), key=lambda x: x[1], reverse=True)
-    _dump_vocab_dict(resulting_vocab_sorted, os.path.join(new_bpe_dir, RESULTING_VOCAB_FILE_NAME))
+    _dump_vocab_dict(resulting_vocab_sorted, os.path.join(not_finished_bpe_dir, RESULTING_VOCAB_FILE_NAME))
 
     bpe_cache = create_bpe_cache(split_base_vocab)
-    dump_bpe_cache(bpe_cache, os.path.join(new_bpe_dir, MERGES_CACHE_FILE_NAME))
+    dump_bpe_cache(bpe_cache, os.path.join(not_finished_bpe_dir, MERGES_CACHE_FILE_NAME))
 
-    dump_merges(merges, os.path.join(new_bpe_dir, MERGES_FILE_NAME))
-    _dump_vocab_dict(split_base_vocab.items(), os.path.join(new_bpe_dir, BPE_REASSEMBLED_VOCAB_FILE_NAME))
+    dump_merges(merges, os.path.join(not_finished_bpe_dir, MERGES_FILE_NAME))
+    _dump_vocab_dict(split_base_vocab.items(), os.path.join(not_finished_bpe_dir, BPE_REASSEMBLED_VOCAB_FILE_NAME))
+    os.rename(not_finished_bpe_dir, new_bpe_dir)
     logger.info(f'Bpe output files are saved into {new_bpe_dir} folder')
 
 
-- 
2.43.0


From 438bab25ebfd798b3ecedda6d2724fb3638b9aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:27 +0000
Subject: [PATCH 08/27] fix: write the bpe codes id and the corpus size
 atomically

---
 codeprep/api/corpus.py           | 3 ++-
 codeprep/pipeline/bperegistry.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/codeprep/api/corpus.py b/codeprep/api/corpus.py
index b583a36..5c1b8ac 100644
--- a/codeprep/api/corpus.py
+++ b/codeprep/api/corpus.py
@@ -48,8 +48,9 @@ class PreprocessedCorpus(object):
     def get_corpus_size(self) -> int:
         if not os.path.exists(self._path_to_corpus_size_file):
             corpus_size = self._calc_corpus_size()
-            with open(self._path_to_corpus_size_file, 'w') as f:
+            with open(f'{self._path_to_corpus_size_file}.part', 'w') as f:
                 f.write(f'{corpus_size}')
+            os.rename(f'{self._path_to_corpus_size_file}.part', self._path_to_corpus_size_file)
         with open(self._path_to_corpus_size_file, 'r') as f:
             return int(f.read())
 
diff --git a/codeprep/pipeline/bperegistry.py b/codeprep/pipeline/bperegistry.py
index a9503ad..9572f2f 100644
--- a/codeprep/pipeline/bperegistry.py
+++ b/codeprep/pipeline/bperegistry.py
@@ -121,8 +121,9 @@ def create_new_id_from(path: str, bpe_config: BpeConfig, predefined_bpe_codes_id
 
 def write_bpe_codes_id(dataset_bpe_dir: str, bpe_codes_id: str) -> None:
     file_with_id = os.path.join(dataset_bpe_dir, BPE_CODES_ID_FILENAME)
-    with open(file_with_id, 'w') as f:
+    with open(f'{file_with_id}.part', 'w') as f:
         f.write(bpe_codes_id)
+    os.rename(f'{file_with_id}.part', file_with_id)
 
 
 def parse_merge_list_id(s: str) -> Tuple[str, int]:
-- 
2.43.0


From f77aa18f7bc2ed0dfda6a6d45eb6ecac93b0d69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:09 +0000
Subject: [PATCH 09/27] fix: never assign a bpe codes id that is already taken

---
 codeprep/pipeline/bperegistry.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/codeprep/pipeline/bperegistry.py b/codeprep/pipeline/bperegistry.py
index 9572f2f..376d734 100644
--- a/codeprep/pipeline/bperegistry.py
+++ b/codeprep/pipeline/bperegistry.py
@@ -4,7 +4,7 @@
 
 import logging
 import os
-from typing import Optional, Dict, Callable, Tuple, List
+from typing import Optional, Dict, Callable, Tuple, List, Set
 
 import regex
 import sys
@@ -106,12 +106,13 @@ def create_new_id_from(path: str, bpe_config: BpeConfig, predefined_bpe_codes_id
         if id_suffix:
             name_parts.append(id_suffix)
         id_base = '_'.join(name_parts)
-        existing_ids = _get_all_custom_bpe_codes_and_max_merges().keys()
+        # an id is taken as soon as it is assigned, even if no merges have been learned with it (yet)
+        existing_ids = _get_all_custom_bpe_codes_and_max_merges().keys() | _get_all_assigned_bpe_codes_ids()
         if id_base not in existing_ids:
             return id_base
         else:
             def extract_number(full_id: str, id_base: str) -> int:
-                m = regex.fullmatch(f"{id_base}_([0-9]+)", full_id)
+                m = regex.fullmatch(f"{regex.escape(id_base)}_([0-9]+)", full_id)
                 return int(m[1]) if m else 0
 
             numbers = list(map(lambda d: extract_number(d, id_base), existing_ids))
@@ -233,6 +234,13 @@ def _get_all_custom_bpe_codes_and_max_merges() -> Dict[str, int]:
     return result
 
 
+def _get_all_assigned_bpe_codes_ids() -> Set[str]:
+    if not os.path.exists(USER_BPE_DIR):
+        return set()
+    ids = [get_codes_id_by_bpe_path(os.path.join(USER_BPE_DIR, bpe_dir)) for bpe_dir in os.listdir(USER_BPE_DIR)]
+    return {id for id in ids if id}
+
+
 def _get_all_bpe_merges_dirs(dataset_bpe_dir: str) -> List[str]:
     if not os.path.exists(dataset_bpe_dir):
         raise FileNotFoundError(f'Directory {dataset_bpe_dir} does not exist!')
-- 
2.43.0


From 108e68c6727b2982e793fded1f7baa6c1673534f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 10/27] fix: notice files added to or removed from the top
 level of a dataset

---
 codeprep/dirutils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/codeprep/dirutils.py b/codeprep/dirutils.py
index c4792e9..a6a7ac7 100644
--- a/codeprep/dirutils.py
+++ b/codeprep/dirutils.py
@@ -56,9 +56,8 @@ def get_dir_last_modification(path: str, limit: int = LIMIT_FILES_ON_LAST_MODIFI
 
     def walk_path(path):
         counter = 0
-        if os.path.isfile(path) or len(os.listdir(path)) == 0:
-            yield os.path.getmtime(path)
-        else:
+        yield os.path.getmtime(path)
+        if not os.path.isfile(path):
             for root, dirs, files in os.walk(path):
                 for dir in dirs:
                     if counter >= limit:
-- 
2.43.0


From 593f705e27cae7bcf723a5ef2cbbca12bac4d044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 11/27] fix: do not put whitespace inside keyword tokens such
 as 'import static'

---
 codeprep/parse/matchers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/parse/matchers.py b/codeprep/parse/matchers.py
index 55ec9a6..103dc57 100644
--- a/codeprep/parse/matchers.py
+++ b/codeprep/parse/matchers.py
@@ -76,7 +76,7 @@ class KeywordMatcher(object):
         return token in Token.Keyword
 
     def transform(self, value: str) -> List[KeyWord]:
-        return [KeyWord(value)]
+        return [KeyWord(keyword) for keyword in value.split()]
 
 
 class NewLineMatcher(object):
-- 
2.43.0


From 9791d95841053302bc92e165a0574ee36ae542ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 12/27] fix: parse files whose extension is not valid utf-8

---
 codeprep/pipeline/parse_projects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/pipeline/parse_projects.py b/codeprep/pipeline/parse_projects.py
index 344bba6..84398de 100644
--- a/codeprep/pipeline/parse_projects.py
+++ b/codeprep/pipeline/parse_projects.py
@@ -38,7 +38,7 @@ def preprocess_and_write(params: Tuple[bytes, bytes]) -> None:
             logger.error(f"File was found when scanning the directory, but cannot be read: {src_file_path}. "
                          f"Invalid symlink? Ignoring ...")
             return
-        extension_bin = os.path.splitext(src_file_path)[1].decode()[1:]
+        extension_bin = os.path.splitext(src_file_path)[1].decode(errors='replace')[1:]
         parsed = [p for p in convert_text("\n".join(lines_from_file), extension_bin)]
         pickle.dump(parsed, f, pickle.HIGHEST_PROTOCOL)
 
-- 
2.43.0


From 95cc4c70bed2a2cb0ecd0190b2d68f6df6d4c188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:12 +0000
Subject: [PATCH 13/27] fix: write the preprocessed files even if the
 vocabulary is already computed

---
 codeprep/pipeline/stages.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/codeprep/pipeline/stages.py b/codeprep/pipeline/stages.py
index eb13220..8938344 100644
--- a/codeprep/pipeline/stages.py
+++ b/codeprep/pipeline/stages.py
@@ -52,17 +52,18 @@ def run_until_base_bpe_vocab(dataset: Dataset, custom_bpe_config: Optional[Custo
 
 
 def run_until_vocab(dataset: Dataset, custom_bpe_config: Optional[CustomBpeConfig]=None) -> None:
+    # the vocabulary is shared by all output folders, the preprocessed files are not
+    run_until_preprocessing(dataset, custom_bpe_config)
+
     logger.info(f'Checking first if vocabulary file exists: {dataset.path_to_vocab_file}')
     if os.path.exists(dataset.path_to_vocab_file):
         logger.info("Vocabulary is already computed and up-to-date")
         return
 
     if not is_path_ready(dataset.path_to_vocab_file):
-        run_until_preprocessing(dataset, custom_bpe_config)
         logger.info("Computing vocab...")
         calc_vocab(dataset.preprocessed.path, dataset.preprocessed.file_iterator(), dataset.vocab_path)
     elif is_path_outdated(dataset.path_to_vocab_file):
-        run_until_preprocessing(dataset, custom_bpe_config)
         logger.info("Computing vocab...")
         archive_path(dataset.path_to_bpe_vocab_file)
         calc_vocab(dataset.preprocessed.path, dataset.preprocessed.file_iterator(), dataset.vocab_path)
-- 
2.43.0


From b63fcac1490fd0624b51503244ef31456fbb9f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:43 +0000
Subject: [PATCH 14/27] fix: find the base vocabulary of datasets with _-_ in
 their names

---
 codeprep/pipeline/bperegistry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/pipeline/bperegistry.py b/codeprep/pipeline/bperegistry.py
index 376d734..f685439 100644
--- a/codeprep/pipeline/bperegistry.py
+++ b/codeprep/pipeline/bperegistry.py
@@ -156,7 +156,7 @@ def get_base_vocab_dir(bpe_list_id: str) -> str:
     dataset_bpe_dir = get_dataset_bpe_dir(bpe_list_id)
     prep_config_str = os.path.basename(dataset_bpe_dir)
     #TODO do not hard code date and dir format in general
-    m = regex.fullmatch(r'(.*?)((?:_-_.*)?)', prep_config_str)
+    m = regex.fullmatch(r'(.*?)((?:_-_(?:we|nounicode|bytes|we_nounicode|we_bytes))?)', prep_config_str)
     if not m:
         raise ValueError(f'Invalid dir format: {prep_config_str}')
     bpe_config = BpeConfig.from_suffix(m[2])
-- 
2.43.0


From 7dfb9e0458af75cc9e14d22265b482ebd3af92fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:46 +0000
Subject: [PATCH 15/27] fix: refuse a bpe codes id which is already assigned to
 other codes

---
 codeprep/cli/impl.py             | 6 +++++-
 codeprep/pipeline/bperegistry.py | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/codeprep/cli/impl.py b/codeprep/cli/impl.py
index 93b922d..bc9fd43 100644
--- a/codeprep/cli/impl.py
+++ b/codeprep/cli/impl.py
@@ -54,7 +54,11 @@ def handle_learnbpe(args):
     dataset = Dataset.create(path, bpe_config.to_prep_config(), extensions, None, bpe_config)
 
     if not dataset.bpe_codes_id:
-        dataset.assign_bpe_codes_id(bpe_config, predefined_bpe_codes_id=bpe_codes_id)
+        try:
+            dataset.assign_bpe_codes_id(bpe_config, predefined_bpe_codes_id=bpe_codes_id)
+        except InvalidBpeCodesIdError as err:
+            logger.error(err)
+            return
     elif bpe_codes_id:
         logger.warning(f"Ignoring passed bpe codes id: {bpe_codes_id}. "
               f"This dataset has already been assigned id: {dataset.bpe_codes_id}")
diff --git a/codeprep/pipeline/bperegistry.py b/codeprep/pipeline/bperegistry.py
index f685439..cfd20a0 100644
--- a/codeprep/pipeline/bperegistry.py
+++ b/codeprep/pipeline/bperegistry.py
@@ -99,6 +99,8 @@ def get_codes_id_by_bpe_path(dataset_bpe_dir: str) -> Optional[str]:
 
 def create_new_id_from(path: str, bpe_config: BpeConfig, predefined_bpe_codes_id: Optional[str] = None) -> str:
     if predefined_bpe_codes_id:
+        if predefined_bpe_codes_id in _get_all_assigned_bpe_codes_ids():
+            raise InvalidBpeCodesIdError(f'Bpe codes id is already assigned to other bpe codes: {predefined_bpe_codes_id}')
         return predefined_bpe_codes_id
     else:
         name_parts = [os.path.basename(path)]
-- 
2.43.0


From 8b14f555544206784e2bf586fb9d36e9433c87cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 16/27] fix: notice changes in linked folders of a dataset

---
 codeprep/dirutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/dirutils.py b/codeprep/dirutils.py
index a6a7ac7..fbb46ff 100644
--- a/codeprep/dirutils.py
+++ b/codeprep/dirutils.py
@@ -58,7 +58,7 @@ def get_dir_last_modification(path: str, limit: int = LIMIT_FILES_ON_LAST_MODIFI
         counter = 0
         yield os.path.getmtime(path)
         if not os.path.isfile(path):
-            for root, dirs, files in os.walk(path):
+            for root, dirs, files in os.walk(path, followlinks=True):
                 for dir in dirs:
                     if counter >= limit:
                         return
-- 
2.43.0


From 38ecceb3a8853109f146755ae977824e90425390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:41 +0000
Subject: [PATCH 17/27] fix: bpe data loaded by other calls was used when bpe
 data is not to be reloaded

---
 codeprep/pipeline/to_repr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/codeprep/pipeline/to_repr.py b/codeprep/pipeline/to_repr.py
index 5e1c5f8..dff6f7d 100644
--- a/codeprep/pipeline/to_repr.py
+++ b/codeprep/pipeline/to_repr.py
@@ -84,7 +84,9 @@ def preprocess_and_write(params: Tuple[bytes, bytes, PrepConfig, str], bpe_data:
 
 #TODO make this method independent of actual directory structure
 def init_bpe_data(prep_config: PrepConfig, custom_bpe_config: Optional[CustomBpeConfig], force_reinit: bool=True):
-    if get_global_bpe_data_if_available() and not force_reinit:
+    # other calls (e.g. splitting into chars or preprocessing a corpus) could have loaded different bpe data in the meantime
+    source = repr(custom_bpe_config or prep_config.get_param_value(PrepParam.SPLIT))
+    if not force_reinit and getattr(get_global_bpe_data_if_available(), 'source', None) == source:
         return # already initialized
     global global_bpe_data
     global_bpe_data = BpeData()
@@ -115,6 +117,7 @@ def init_bpe_data(prep_config: PrepConfig, custom_bpe_config: Optional[CustomBpe
         else:
             global_bpe_data.merges_cache = {}
         global_bpe_data.merges = read_merges(bpe_merges_file)
+    global_bpe_data.source = source
 
 
 def params_generator(dataset: Dataset, path_to_part_metadata: Optional[str]):
-- 
2.43.0


From 18f583c50d9b00d2acc7f88729dab205c34442e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:41 +0000
Subject: [PATCH 18/27] fix: the command line failed for empty text

---
 codeprep/cli/impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/cli/impl.py b/codeprep/cli/impl.py
index bc9fd43..acb0bd1 100644
--- a/codeprep/cli/impl.py
+++ b/codeprep/cli/impl.py
@@ -71,7 +71,7 @@ def handle_splitting(args: Dict) -> None:
     try:
         prep_config = create_prep_config_from_args(args)
         bpe_codes_id = get_option(args, '<bpe-codes-id>') or get_predefined_bpe_codes_id(args)
-        if args['<text>']:
+        if args['<text>'] is not None:
             prep_text = codeprep.api.text.preprocess(args['<text>'], prep_config, bpe_codes_id,
                                                      extension=args['--ext'])
             print(prep_text)
-- 
2.43.0


From 7a058d0913917465ab0ce8cd7c4306712da6a061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:12 +0000
Subject: [PATCH 19/27] fix: -L=<max-str-length> as in the usage text was not
 understood

---
 codeprep/cli/impl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codeprep/cli/impl.py b/codeprep/cli/impl.py
index acb0bd1..b1f3e79 100644
--- a/codeprep/cli/impl.py
+++ b/codeprep/cli/impl.py
@@ -102,7 +102,8 @@ def create_bpe_config_from_args(run_options: Dict[str, str]) -> BpeConfig:
 
 def create_prep_config_from_args(arguments: Dict) -> PrepConfig:
     max_str_length = get_option(arguments, '--max-str-length')
-    max_str_length = int(max_str_length) if max_str_length is not None else sys.maxsize
+    # docopt leaves the equals sign of -L=<max-str-length> in the value
+    max_str_length = int(max_str_length.lstrip('=')) if max_str_length is not None else sys.maxsize
     return PrepConfig({
         PrepParam.EN_ONLY: 'U' if is_option_true(arguments, '--no-unicode') else 'u',
         PrepParam.COM: '0' if is_option_true(arguments, '--no-com') else 'c',
-- 
2.43.0


From 03606411141dc0cfd21c107c96239f1289d3f936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 20/27] fix: whitespace within keywords, numbers, and operators
 is not part of the token

---
 codeprep/parse/core.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/codeprep/parse/core.py b/codeprep/parse/core.py
index 77d20d6..cda4493 100644
--- a/codeprep/parse/core.py
+++ b/codeprep/parse/core.py
@@ -3,10 +3,12 @@
 # SPDX-License-Identifier: Apache-2.0
 
 import logging
-from typing import List
+import re
+from typing import List, Tuple
 
 from pygments import lex
 from pygments.lexers import get_lexer_by_name, guess_lexer
+from pygments.token import Token
 from pygments.util import ClassNotFound
 
 from codeprep.parse import matchers
@@ -42,6 +44,13 @@ def _convert(token, value: str) -> List[ParsedToken]:
     assert False
 
 
+def _split_off_whitespace(token, value: str) -> List[Tuple]:
+    # with some languages lexers include adjacent whitespace into keywords, numbers, and operators
+    if token in Token.Keyword or token in Token.Literal.Number or token is Token.Operator or token in Token.Punctuation:
+        return [(Token.Text if part.isspace() else token, part) for part in re.findall(r'\s+|\S+', value)]
+    return [(token, value)]
+
+
 def convert_text(text: str, extension: str) -> List[ParsedToken]:
     extension = extension or 'java'
     if extension:
@@ -52,7 +61,8 @@ def convert_text(text: str, extension: str) -> List[ParsedToken]:
             lexer = guess_lexer(text)
     else:
         lexer = guess_lexer(text)
-    for token, value in lex(text, lexer):
-        model_tokens = _convert(token, value)
-        for mr in model_tokens:
-            yield mr
\ No newline at end of file
+    for lexed_token, lexed_value in lex(text, lexer):
+        for token, value in _split_off_whitespace(lexed_token, lexed_value):
+            model_tokens = _convert(token, value)
+            for mr in model_tokens:
+                yield mr
\ No newline at end of file
-- 
2.43.0


From ff6b56efd0554ced33be1688adc1dbebf337a75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 21/27] fix: do not learn twice from the beginning of long
 files which are not utf-8

---
 codeprep/bpepkg/wild_bpe.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/codeprep/bpepkg/wild_bpe.py b/codeprep/bpepkg/wild_bpe.py
index 96489e5..81d2656 100644
--- a/codeprep/bpepkg/wild_bpe.py
+++ b/codeprep/bpepkg/wild_bpe.py
@@ -51,10 +51,14 @@ class Side(Enum):
 
 
 def get_char_iterator_for_file(path_to_file: str):
+    # the encoding has to be known before the first characters are given away
     try:
-        yield from get_char_iterator_for_file_with_encoding(path_to_file, 'utf-8')
+        for _ in get_char_iterator_for_file_with_encoding(path_to_file, 'utf-8'):
+            pass
+        encoding = 'utf-8'
     except UnicodeDecodeError:
-        yield from get_char_iterator_for_file_with_encoding(path_to_file, 'ISO-8859-1')
+        encoding = 'ISO-8859-1'
+    yield from get_char_iterator_for_file_with_encoding(path_to_file, encoding)
 
 
 def escape_char(char: str):
-- 
2.43.0


From 1df1eb6da59cf425ac6b7dd444ec0e0f1e1c86a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 22/27] fix: learn no merges from empty text instead of failing

---
 codeprep/bpepkg/wild_bpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/bpepkg/wild_bpe.py b/codeprep/bpepkg/wild_bpe.py
index 81d2656..4b28213 100644
--- a/codeprep/bpepkg/wild_bpe.py
+++ b/codeprep/bpepkg/wild_bpe.py
@@ -113,7 +113,7 @@ def are_symmetric(pair1: str, pair2: str):
 def build_indices(it: Generator[str, None, None]) -> Tuple[Dict[str, List[int]], Dict[str, Dict[Side, Set[str]]]]:
     index = defaultdict(list)
     index_index = defaultdict(lambda: {Side.LEFT: set(), Side.RIGHT: set()})
-    first_char = next(it)
+    first_char = next(it, None)
     last_key = None
     for i, second_char in enumerate(it):
         key = ' '.join([first_char, second_char])
-- 
2.43.0


From 834e0622281c7c4c4909f08770bfbbac68f3fdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 23/27] fix: text with blanks could not be learned from: escape
 them as in files

---
 codeprep/bpepkg/wild_bpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/bpepkg/wild_bpe.py b/codeprep/bpepkg/wild_bpe.py
index 4b28213..e5c4935 100644
--- a/codeprep/bpepkg/wild_bpe.py
+++ b/codeprep/bpepkg/wild_bpe.py
@@ -505,7 +505,7 @@ def run_from_text(text: str, n_merges: int=sys.maxsize) -> Tuple[str, int, Optio
 ('there|is|a|thin|tooth|in| the', 1), ('there|is|a|thin|tooth|in|the |', 1), \
 ('there|is|a|thin|tooth|in|the| tooth', 1)]
     """
-    return run(iter(text), n_merges)
+    return run(map(escape_char, text), n_merges)
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 5102fa106dbb68bebdf45d1b5b937f65b6d01b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:49 +0000
Subject: [PATCH 24/27] fix: extension lists such as a|b and a_b had the same
 names of caches and outputs

---
 codeprep/pipeline/dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codeprep/pipeline/dataset.py b/codeprep/pipeline/dataset.py
index 59f8c7e..e1cd1f8 100644
--- a/codeprep/pipeline/dataset.py
+++ b/codeprep/pipeline/dataset.py
@@ -5,6 +5,7 @@
 import ast
 import logging
 import os
+import re
 from typing import Type, Optional, Generator, List
 
 from codeprep.bpepkg.bpe_config import BpeConfig
@@ -174,7 +175,8 @@ class Dataset(object):
     def get_dataset_dir_name(self) -> str:
         name = f'{self.name}_{self.dataset_last_modified}'
         if self._normalized_extension_list:
-            name += ('_' + "_".join(self._normalized_extension_list))
+            # '-' and '_' inside of extensions are escaped, otherwise 'a|b' and 'a_b' would have the same name
+            name += ('_' + "_".join(re.sub('[-_]', r'-\g<0>', ext) for ext in self._normalized_extension_list))
         return name
 
     @property
-- 
2.43.0


From 758c635387151d0b53d9e17a5259646bfbdb583c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:59 +0000
Subject: [PATCH 25/27] fix: limiting a vocabulary to exactly its size failed

---
 codeprep/pipeline/vocab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index b29111f..82f2e49 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -86,7 +86,7 @@ class PartialVocab(object):
 
     def limit_max_vocab(self, vocab_size_threshold: int) -> None:
         sorted_vocab = sorted(self.merged_word_counts.items(), key=lambda x: x[1], reverse=True)
-        if vocab_size_threshold > len(sorted_vocab):
+        if vocab_size_threshold >= len(sorted_vocab):
             return
         min_freq_excluded = sorted_vocab[vocab_size_threshold][1]
         adjusted_threshold = vocab_size_threshold - 1
-- 
2.43.0


From fdc6948447f9ce894b3956616439abc1e130251e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:22 +0000
Subject: [PATCH 26/27] fix: read bpe codes ids exactly as they were written

An id with blanks at its ends ('my ') was read back without them, so that it
could be assigned although 'my' was already taken by other bpe codes.
---
 codeprep/pipeline/bperegistry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codeprep/pipeline/bperegistry.py b/codeprep/pipeline/bperegistry.py
index cfd20a0..bb9aefb 100644
--- a/codeprep/pipeline/bperegistry.py
+++ b/codeprep/pipeline/bperegistry.py
@@ -93,8 +93,8 @@ def get_codes_id_by_bpe_path(dataset_bpe_dir: str) -> Optional[str]:
     if not os.path.exists(file_with_id):
         return None
     else:
-        with open(file_with_id, 'r') as f:
-            return f.read().strip()
+        with open(file_with_id, 'r', newline='') as f:
+            return f.read()
 
 
 def create_new_id_from(path: str, bpe_config: BpeConfig, predefined_bpe_codes_id: Optional[str] = None) -> str:
-- 
2.43.0


From f3a1641f938833d3191b8c6929fe19318e1a8345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:22 +0000
Subject: [PATCH 27/27] fix: accept bpe codes ids with line breaks, refuse
 those with one at the end

Ids were matched up to the first line break only, so that an id that contains
one could be learned but not used, and 'id-5' followed by a line break was
taken for 'id-5'.
---
 codeprep/pipeline/bperegistry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/pipeline/bperegistry.py b/codeprep/pipeline/bperegistry.py
index bb9aefb..34099fa 100644
--- a/codeprep/pipeline/bperegistry.py
+++ b/codeprep/pipeline/bperegistry.py
@@ -147,7 +147,7 @@ Format should be: "(.*)-([1-9][0-9]*)$"
 Format should be: "(.*)-([1-9][0-9]*)$"
     """
     REGEX = "(.*)-([1-9][0-9]*)$"
-    m = regex.match(REGEX, s)
+    m = regex.fullmatch(REGEX, s, regex.DOTALL)
     if m:
         return m[1], int(m[2])
     else:
-- 
2.43.0

