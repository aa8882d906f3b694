From a553624ed120c4d43d7d746a10c6e6cbcfafb5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 01/14] fix: do not corrupt the cached BPE split of a word when
 unescaping it

unescape() stripped the end marker in place from the list stored in the merges cache,
so the second lookup of the same word failed or returned a wrong split.
---
 codeprep/bpepkg/bpe_encode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/bpepkg/bpe_encode.py b/codeprep/bpepkg/bpe_encode.py
index b253605..658aee2 100644
--- a/codeprep/bpepkg/bpe_encode.py
+++ b/codeprep/bpepkg/bpe_encode.py
@@ -40,7 +40,7 @@ def unescape(parts: List[str]):
     if parts[-1][-1] != ESCAPE_CHAR:
         raise ValueError(f"There should be {ESCAPE_CHAR} at the end, however this is what was passed: {parts}")
 
-    parts[-1] = parts[-1][:-1]
+    parts = parts[:-1] + [parts[-1][:-1]]
     return list(map(lambda p: p.replace(ESCAPE_CHAR + '@', ESCAPE_CHAR), parts))
 
 
-- 
2.43.0


From 7cd4431324fe8fcd7c073c2cf4f73e07bdcce6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 02/14] fix: treat the dataset name literally when numbering
 new bpe codes ids

A directory name with regex metacharacters (e.g. c++) never matched its own numbered ids,
so the same id was handed out again.
---
 codeprep/pipeline/bperegistry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/pipeline/bperegistry.py b/codeprep/pipeline/bperegistry.py
index a9503ad..cd60dac 100644
--- a/codeprep/pipeline/bperegistry.py
+++ b/codeprep/pipeline/bperegistry.py
@@ -111,7 +111,7 @@ def create_new_id_from(path: str, bpe_config: BpeConfig, predefined_bpe_codes_id
             return id_base
         else:
             def extract_number(full_id: str, id_base: str) -> int:
-                m = regex.fullmatch(f"{id_base}_([0-9]+)", full_id)
+                m = regex.fullmatch(f"{regex.escape(id_base)}_([0-9]+)", full_id)
                 return int(m[1]) if m else 0
 
             numbers = list(map(lambda d: extract_number(d, id_base), existing_ids))
-- 
2.43.0


From d677e91779620e9cd2821a603b8ae53033054a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 03/14] fix: keep the case of the rest of a word when restoring
 its capital first letter
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

str.capitalize() lowercases everything after the first letter: with bpe and no_unicode
FooBarÜ was turned into Foobar÷.
---
 codeprep/tokens/word.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/tokens/word.py b/codeprep/tokens/word.py
index 3319e61..f25a252 100644
--- a/codeprep/tokens/word.py
+++ b/codeprep/tokens/word.py
@@ -86,7 +86,7 @@ class Word(ParsedSubtoken):
         if self.capitalization == Word.Capitalization.UNDEFINED or self.capitalization == Word.Capitalization.NONE:
             return self.canonic_form
         elif self.capitalization == Word.Capitalization.FIRST_LETTER:
-            return self.canonic_form.capitalize()
+            return self.canonic_form[0].upper() + self.canonic_form[1:]
         elif self.capitalization == Word.Capitalization.ALL:
             return self.canonic_form.upper()
         else:
-- 
2.43.0


From 3307fa5aa87168e6559c2a254e0bd70fbdee3682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 04/14] fix: close partial vocabulary files after dumping and
 loading them

Without reference counting the dumped data stayed unflushed, so the following check of a merged
file hit EOFError and dropped it, and a crash could leave partial vocabularies empty.
---
 codeprep/pipeline/vocab.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index 0cdfa3d..94dcb17 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -197,7 +197,8 @@ class VocabMerger(multiprocessing.Process):
 
         first.renew_id()
         path_to_new_file = os.path.join(self.path_to_dump, f'{first_id}_{second_id}_{first.id}.{PARTVOCAB_EXT}')
-        pickle.dump(first, open(path_to_new_file, 'wb'))
+        with open(path_to_new_file, 'wb') as f:
+            pickle.dump(first, f)
         finish_file_dumping(path_to_new_file)
 
         return first, new_words
@@ -219,13 +220,15 @@ def create_and_dump_partial_vocab(param: Tuple[List[str], str, int]) -> PartialV
     partial_vocab = PartialVocab(vocab, chunk)
     path = os.path.join(path_to_dump, f'{partial_vocab.id}.{PARTVOCAB_EXT}')
     logger.debug(f"Dumping part vocab to {path}")
-    pickle.dump(partial_vocab, open(path, 'wb'))
+    with open(path, 'wb') as f:
+        pickle.dump(partial_vocab, f)
     return partial_vocab
 
 
 def finish_file_dumping(path_to_new_file: str) -> None:
     try:
-        pickle.load(open(path_to_new_file, 'rb'))
+        with open(path_to_new_file, 'rb') as f:
+            pickle.load(f)
     except EOFError:
         # file has not been written properly
         os.remove(path_to_new_file)
@@ -292,7 +295,8 @@ def load_partial_vocabs(path: str) -> List[PartialVocab]:
     task_list = []
     for file in os.listdir(path):
         if file.endswith(PARTVOCAB_EXT):
-            part_vocab = pickle.load(open(os.path.join(path, file), 'rb'))
+            with open(os.path.join(path, file), 'rb') as f:
+                part_vocab = pickle.load(f)
             if not isinstance(part_vocab, PartialVocab):
                 raise TypeError(f"Object {str(part_vocab)} must be VocabMerger version {part_vocab.VERSION}")
             task_list.append(part_vocab)
-- 
2.43.0


From 8986a99bbb0a76414d837a4a70ec4dff7e15409e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 05/14] fix: publish vocabulary, non-bpe vocabulary and corpus
 size files only when complete

These files are reused as soon as they exist, but were written in place: a crash while writing
left a truncated file that was then taken for the final result.
---
 codeprep/api/corpus.py           | 6 ++++--
 codeprep/pipeline/vocab.py       | 8 ++++++--
 codeprep/pipeline/vocabloader.py | 6 ++++--
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/codeprep/api/corpus.py b/codeprep/api/corpus.py
index b583a36..facccd2 100644
--- a/codeprep/api/corpus.py
+++ b/codeprep/api/corpus.py
@@ -16,7 +16,7 @@ from codeprep.config import CHUNKSIZE
 from codeprep.config import test_data_dir
 from codeprep.pipeline import stages
 from codeprep.pipeline.bperegistry import CustomBpeConfig, is_predefined_id
-from codeprep.pipeline.dataset import Dataset, SubDataset
+from codeprep.pipeline.dataset import Dataset, SubDataset, NOT_FINISHED_EXTENSION
 from codeprep.pipeline.vocab import _load_vocab_dict
 from codeprep.prepconfig import PrepConfig
 
@@ -48,8 +48,10 @@ class PreprocessedCorpus(object):
     def get_corpus_size(self) -> int:
         if not os.path.exists(self._path_to_corpus_size_file):
             corpus_size = self._calc_corpus_size()
-            with open(self._path_to_corpus_size_file, 'w') as f:
+            path_to_unfinished_file = f'{self._path_to_corpus_size_file}{NOT_FINISHED_EXTENSION}'
+            with open(path_to_unfinished_file, 'w') as f:
                 f.write(f'{corpus_size}')
+            os.rename(path_to_unfinished_file, self._path_to_corpus_size_file)
         with open(self._path_to_corpus_size_file, 'r') as f:
             return int(f.read())
 
diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index 94dcb17..fa924e2 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -78,11 +78,13 @@ class PartialVocab(object):
 
     def write_stats(self, path_to_stats_file: str) -> None:
         stats = self.__generate_stats()
-        with open(path_to_stats_file, 'w') as f:
+        path_to_unfinished_file = f'{path_to_stats_file}.part'
+        with open(path_to_unfinished_file, 'w') as f:
             vocabsize = int(stats[-1][1][0])
             f.write(f'{vocabsize}\n')
             for percent, (v, n) in stats:
                 f.write(f"{percent:.4f} {int(v)} {int(n)}\n")
+        os.rename(path_to_unfinished_file, path_to_stats_file)
 
     def limit_max_vocab(self, vocab_size_threshold: int) -> None:
         sorted_vocab = sorted(self.merged_word_counts.items(), key=lambda x: x[1], reverse=True)
@@ -96,7 +98,9 @@ class PartialVocab(object):
 
     def write_vocab(self, path_to_vocab_file: str) -> None:
         sorted_vocab = sorted(self.merged_word_counts.items(), key=lambda x: x[1], reverse=True)
-        _dump_vocab_dict(sorted_vocab, path_to_vocab_file, to_literal=False)
+        path_to_unfinished_file = f'{path_to_vocab_file}.part'
+        _dump_vocab_dict(sorted_vocab, path_to_unfinished_file, to_literal=False)
+        os.rename(path_to_unfinished_file, path_to_vocab_file)
 
     def __generate_stats(self):
         d = defaultdict(list)
diff --git a/codeprep/pipeline/vocabloader.py b/codeprep/pipeline/vocabloader.py
index ac8306b..7f46610 100644
--- a/codeprep/pipeline/vocabloader.py
+++ b/codeprep/pipeline/vocabloader.py
@@ -8,7 +8,7 @@ import shutil
 from typing import Set, Dict
 
 from codeprep.pipeline.bperegistry import get_bpe_dir, get_base_vocab_dir, RESULTING_VOCAB_FILE_NAME
-from codeprep.pipeline.dataset import Dataset, NONBPE_VOCAB_FILENAME
+from codeprep.pipeline.dataset import Dataset, NONBPE_VOCAB_FILENAME, NOT_FINISHED_EXTENSION
 from codeprep.preprocess.placeholders import placeholders
 from codeprep.util import to_literal_str
 from codeprep.pipeline.vocab import _load_vocab_dict, _load_vocab_set, VOCAB_FILENAME
@@ -49,7 +49,9 @@ def gather_non_bpe_vocab(dataset: Dataset):
         non_bpe_tokens.update(_load_vocab_set(os.path.join(part_nonbpe_vocab_dir, file)))
 
     non_bpe_tokens.update(list(placeholders.values()))
-    with open(dataset.path_to_nonbpe_vocab_file, 'w') as f:
+    path_to_unfinished_file = f'{dataset.path_to_nonbpe_vocab_file}{NOT_FINISHED_EXTENSION}'
+    with open(path_to_unfinished_file, 'w') as f:
         for token in non_bpe_tokens:
             f.write(f'{to_literal_str(token)}\n')
+    os.rename(path_to_unfinished_file, dataset.path_to_nonbpe_vocab_file)
     shutil.rmtree(part_nonbpe_vocab_dir)
\ No newline at end of file
-- 
2.43.0


From efcd05dcab616ae3ebf047198ca118aceb2c9c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 06/14] fix: make learned bpe codes appear only when all their
 files are complete

The directory named after the number of merges was created first and filled afterwards, so
an interrupted run left a directory that later runs took for complete bpe codes.
---
 codeprep/pipeline/bpelearner.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/codeprep/pipeline/bpelearner.py b/codeprep/pipeline/bpelearner.py
index b819945..21e63de 100644
--- a/codeprep/pipeline/bpelearner.py
+++ b/codeprep/pipeline/bpelearner.py
@@ -4,6 +4,7 @@
 
 import logging
 import os
+import shutil
 from typing import Tuple, Dict, Set, Optional
 
 from codeprep.bpepkg.bpe_config import BpeConfig, BpeParam, BpeConfigNotSupported
@@ -14,7 +15,7 @@ from codeprep.bpepkg.merge import MergeList, read_merges, dump_merges
 from codeprep.pipeline import stages
 from codeprep.pipeline.bperegistry import get_max_merges, MERGES_FILE_NAME, MERGES_CACHE_FILE_NAME, \
     RESULTING_VOCAB_FILE_NAME, BPE_REASSEMBLED_VOCAB_FILE_NAME
-from codeprep.pipeline.dataset import Dataset
+from codeprep.pipeline.dataset import Dataset, NOT_FINISHED_EXTENSION
 from codeprep.pipeline.vocab import _dump_vocab_dict, _load_vocab_dict
 from codeprep.util import to_non_literal_str
 
@@ -70,17 +71,21 @@ def get_dir_with_most_merges(dataset_bpe_path, n_merges) -> Optional[str]:
 
 def save_results(split_base_vocab, merges, new_bpe_dir):
 
-    os.makedirs(new_bpe_dir)
+    unfinished_bpe_dir = f'{new_bpe_dir}{NOT_FINISHED_EXTENSION}'
+    if os.path.exists(unfinished_bpe_dir):
+        shutil.rmtree(unfinished_bpe_dir)
+    os.makedirs(unfinished_bpe_dir)
 
     resulting_vocab = create_resulting_vocab(split_base_vocab)
     resulting_vocab_sorted = sorted(resulting_vocab.items(), key=lambda x: x[1], reverse=True)
-    _dump_vocab_dict(resulting_vocab_sorted, os.path.join(new_bpe_dir, RESULTING_VOCAB_FILE_NAME))
+    _dump_vocab_dict(resulting_vocab_sorted, os.path.join(unfinished_bpe_dir, RESULTING_VOCAB_FILE_NAME))
 
     bpe_cache = create_bpe_cache(split_base_vocab)
-    dump_bpe_cache(bpe_cache, os.path.join(new_bpe_dir, MERGES_CACHE_FILE_NAME))
+    dump_bpe_cache(bpe_cache, os.path.join(unfinished_bpe_dir, MERGES_CACHE_FILE_NAME))
 
-    dump_merges(merges, os.path.join(new_bpe_dir, MERGES_FILE_NAME))
-    _dump_vocab_dict(split_base_vocab.items(), os.path.join(new_bpe_dir, BPE_REASSEMBLED_VOCAB_FILE_NAME))
+    dump_merges(merges, os.path.join(unfinished_bpe_dir, MERGES_FILE_NAME))
+    _dump_vocab_dict(split_base_vocab.items(), os.path.join(unfinished_bpe_dir, BPE_REASSEMBLED_VOCAB_FILE_NAME))
+    os.rename(unfinished_bpe_dir, new_bpe_dir)
     logger.info(f'Bpe output files are saved into {new_bpe_dir} folder')
 
 
-- 
2.43.0


From f4ba09cb3d6acb00b5408ab5612a9e3e9a946713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 07/14] fix: do not fail on files whose extension is not valid
 utf-8

---
 codeprep/pipeline/parse_projects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/pipeline/parse_projects.py b/codeprep/pipeline/parse_projects.py
index 344bba6..84398de 100644
--- a/codeprep/pipeline/parse_projects.py
+++ b/codeprep/pipeline/parse_projects.py
@@ -38,7 +38,7 @@ def preprocess_and_write(params: Tuple[bytes, bytes]) -> None:
             logger.error(f"File was found when scanning the directory, but cannot be read: {src_file_path}. "
                          f"Invalid symlink? Ignoring ...")
             return
-        extension_bin = os.path.splitext(src_file_path)[1].decode()[1:]
+        extension_bin = os.path.splitext(src_file_path)[1].decode(errors='replace')[1:]
         parsed = [p for p in convert_text("\n".join(lines_from_file), extension_bin)]
         pickle.dump(parsed, f, pickle.HIGHEST_PROTOCOL)
 
-- 
2.43.0


From bcf8db7391eb0e0e142f8a2310b5c38762d81fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 08/14] fix: store the non-bpe tokens of each file under a name
 that is unique to the file

The name was made of the base name and the current time: equally named files handled at the
same moment overwrote each other, and a file truncated by a crash was never replaced.
---
 codeprep/pipeline/to_repr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codeprep/pipeline/to_repr.py b/codeprep/pipeline/to_repr.py
index 24de466..e7892c5 100644
--- a/codeprep/pipeline/to_repr.py
+++ b/codeprep/pipeline/to_repr.py
@@ -3,6 +3,7 @@
 # SPDX-License-Identifier: Apache-2.0
 
 import gzip
+import hashlib
 import logging
 import os
 import pickle
@@ -11,7 +12,6 @@ from multiprocessing.pool import Pool
 from typing import List, Tuple
 from typing import Optional
 
-import time
 from tqdm import tqdm
 
 from codeprep.bpepkg.bpe_encode import read_merges, BpeData
@@ -76,7 +76,7 @@ def preprocess_and_write(params: Tuple[bytes, bytes, PrepConfig, str], bpe_data:
         o.write(to_literal_str(to_token_str(repr)) + '\n')
 
     if part_nonbpe_vocab_folder:
-        save_metadata(metadata, os.path.join(part_nonbpe_vocab_folder, f'{os.path.basename(dest_file_path)}_-_{time.time()}'))
+        save_metadata(metadata, os.path.join(part_nonbpe_vocab_folder, hashlib.sha1(dest_file_path).hexdigest()))
 
     os.rename(not_finished_dest_file_path, dest_file_path)
 
-- 
2.43.0


From 17d09d5b78365bca244f06287757f1e0a77e8ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 09/14] fix: replace the loaded bpe data only after the new
 data has been loaded completely

If loading failed, an empty BpeData stayed behind and was taken for initialized later.
---
 codeprep/pipeline/to_repr.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/codeprep/pipeline/to_repr.py b/codeprep/pipeline/to_repr.py
index e7892c5..ec179ac 100644
--- a/codeprep/pipeline/to_repr.py
+++ b/codeprep/pipeline/to_repr.py
@@ -84,20 +84,19 @@ def preprocess_and_write(params: Tuple[bytes, bytes, PrepConfig, str], bpe_data:
 def init_bpe_data(prep_config: PrepConfig, custom_bpe_config: Optional[CustomBpeConfig], force_reinit: bool=True):
     if get_global_bpe_data_if_available() and not force_reinit:
         return # already initialized
-    global global_bpe_data
-    global_bpe_data = BpeData()
+    bpe_data = BpeData()
     if custom_bpe_config:
         logger.info(f'Using bpe merges file: {custom_bpe_config.codes_file}')
         if custom_bpe_config.can_use_cache_file():
-            global_bpe_data.merges_cache = read_bpe_cache(custom_bpe_config.cache_file)
+            bpe_data.merges_cache = read_bpe_cache(custom_bpe_config.cache_file)
         else:
-            global_bpe_data.merges_cache = {}
-        global_bpe_data.merges = read_merges(custom_bpe_config.codes_file, custom_bpe_config.n_merges)
+            bpe_data.merges_cache = {}
+        bpe_data.merges = read_merges(custom_bpe_config.codes_file, custom_bpe_config.n_merges)
 
         if custom_bpe_config.n_merges:
             logger.info(f'Using first {custom_bpe_config.n_merges} merges.')
         nonbpe_vocab = vocabloader.nonbpe(custom_bpe_config.merge_list_id)
-        global_bpe_data.merges_cache.update({s: [s] for s in nonbpe_vocab})
+        bpe_data.merges_cache.update({s: [s] for s in nonbpe_vocab})
     else:
         bpe_n_merges_dict = {'4': '5k', '5': '1k', '6': '10k', '7': '20k', '8': '0'}
         bpe_n_merges = bpe_n_merges_dict[prep_config.get_param_value(PrepParam.SPLIT)]
@@ -109,10 +108,12 @@ def init_bpe_data(prep_config: PrepConfig, custom_bpe_config: Optional[CustomBpe
                                              CASE_DIR if prep_config.get_param_value(PrepParam.CASE) == 'u' else NO_CASE_DIR,
                                              str(bpe_n_merges), 'merges_cache.txt')
         if os.path.exists(bpe_merges_cache_file):
-            global_bpe_data.merges_cache = read_bpe_cache(bpe_merges_cache_file)
+            bpe_data.merges_cache = read_bpe_cache(bpe_merges_cache_file)
         else:
-            global_bpe_data.merges_cache = {}
-        global_bpe_data.merges = read_merges(bpe_merges_file)
+            bpe_data.merges_cache = {}
+        bpe_data.merges = read_merges(bpe_merges_file)
+    global global_bpe_data
+    global_bpe_data = bpe_data
 
 
 def params_generator(dataset: Dataset, path_to_part_metadata: Optional[str]):
-- 
2.43.0


From 9e1a3cf44179e63518845730d64777d8b12141a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 10/14] fix: report an error if the vocabulary could not be
 calculated

If the mergers died or timed out, calc_vocab() reported success although there was no vocabulary.
---
 codeprep/pipeline/vocab.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codeprep/pipeline/vocab.py b/codeprep/pipeline/vocab.py
index fa924e2..43d2825 100644
--- a/codeprep/pipeline/vocab.py
+++ b/codeprep/pipeline/vocab.py
@@ -396,5 +396,8 @@ def calc_vocab(path: str, file_iterator: Iterator[bytes], output_dir: str):
     for merger in mergers:
         merger.join()
 
+    if not os.path.exists(vocab_file_path):
+        raise RuntimeError(f"Vocabulary has not been calculated: {vocab_file_path}")
+
     logger.info(f"Vocab is available at {vocab_file_path}")
     logger.info(f"Vocab stats is available at {vocab_size_file_path}")
\ No newline at end of file
-- 
2.43.0


From 7fdee8a9c027c96a9fbac44cf068766044da3231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 11/14] fix: take the root directory and linked directories
 into account in the timestamp

Removing or renaming a file at the top level of a dataset, or changing a file in a linked directory
(whose files are part of the dataset), went unnoticed and outdated results were reused.
---
 codeprep/dirutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codeprep/dirutils.py b/codeprep/dirutils.py
index c4792e9..283a77d 100644
--- a/codeprep/dirutils.py
+++ b/codeprep/dirutils.py
@@ -59,7 +59,8 @@ def get_dir_last_modification(path: str, limit: int = LIMIT_FILES_ON_LAST_MODIFI
         if os.path.isfile(path) or len(os.listdir(path)) == 0:
             yield os.path.getmtime(path)
         else:
-            for root, dirs, files in os.walk(path):
+            yield os.path.getmtime(path)
+            for root, dirs, files in os.walk(path, followlinks=True):
                 for dir in dirs:
                     if counter >= limit:
                         return
-- 
2.43.0


From 5ce09c73602e2505bd7b56bb3872b536359fbf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 12/14] fix: do not produce keyword tokens that contain
 whitespace

For some languages the lexer returns e.g. 'import static' as one keyword. Tokens are separated by
spaces in preprocessed corpora, so such a token was read back as two.
---
 codeprep/parse/matchers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codeprep/parse/matchers.py b/codeprep/parse/matchers.py
index 5bc5062..46590c5 100644
--- a/codeprep/parse/matchers.py
+++ b/codeprep/parse/matchers.py
@@ -76,7 +76,7 @@ class KeywordMatcher(object):
         return token in Token.Keyword
 
     def transform(self, value: str) -> List[KeyWord]:
-        return [KeyWord(value)]
+        return [KeyWord(v) for v in value.split()]
 
 
 class NewLineMatcher(object):
-- 
2.43.0


From 79186a86092949a11eeebba8d5e75585f4237cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:34 +0000
Subject: [PATCH 13/14] fix: take ids without computed merges into account when
 assigning a new bpe codes id

---
 codeprep/pipeline/bperegistry.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/codeprep/pipeline/bperegistry.py b/codeprep/pipeline/bperegistry.py
index cd60dac..b7ffe2f 100644
--- a/codeprep/pipeline/bperegistry.py
+++ b/codeprep/pipeline/bperegistry.py
@@ -192,7 +192,8 @@ def load_bpe_merges(merge_list_id: str, n_merges: int) -> MergeList:
 def format_available_merge_list_ids() -> str:
     res = ""
     for k, v in _get_all_custom_bpe_codes_and_max_merges().items():
-        res += f'{k}-[1..{v}]\n'
+        if v:
+            res += f'{k}-[1..{v}]\n'
     return res
 
 
@@ -226,9 +227,9 @@ def _get_all_custom_bpe_codes_and_max_merges() -> Dict[str, int]:
     for bpe_dir in bpe_dirs:
         path = os.path.join(USER_BPE_DIR, bpe_dir)
         code = get_codes_id_by_bpe_path(path)
-        max_merges = get_max_merges(path)
-        if code and max_merges:
-            result[code] = max_merges
+        if code:
+            # an id is in use as soon as it has been assigned, even if no merges have been computed for it yet
+            result[code] = get_max_merges(path) or 0
     return result
 
 
-- 
2.43.0


From 2bf46c8d9b619077396ceb7e0538994a18df78b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:42 +0000
Subject: [PATCH 14/14] fix: operators and numbers delivered together with
 blanks produced tokens containing spaces

---
 codeprep/parse/matchers.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/codeprep/parse/matchers.py b/codeprep/parse/matchers.py
index 46590c5..9a52179 100644
--- a/codeprep/parse/matchers.py
+++ b/codeprep/parse/matchers.py
@@ -108,12 +108,17 @@ class NumberMatchers(object):
         return token in Token.Literal.Number
 
     def transform(self, value: str) -> List[Number]:
+        # some lexers deliver numbers together with the blanks around them
+        return [self._to_number(v) for v in value.split()]
+
+    @staticmethod
+    def _to_number(value: str) -> Number:
         if value == '0':
-            return [Zero()]
+            return Zero()
         elif value == '1':
-            return [One()]
+            return One()
         else:
-            return [Number(value)]
+            return Number(value)
 
 
 class OperatorMatcher(object):
@@ -121,18 +126,23 @@ class OperatorMatcher(object):
         return token is Token.Operator or token in Token.Punctuation
 
     def transform(self, value: str) -> List[Operator]:
+        # some lexers deliver operators together with the blanks around them
+        return [self._to_operator(v) for v in value.split()]
+
+    @staticmethod
+    def _to_operator(value: str) -> Operator:
         if value == ';':
-            return [Semicolon()]
+            return Semicolon()
         elif value == '{':
-            return [OpeningCurlyBracket()]
+            return OpeningCurlyBracket()
         elif value == '}':
-            return [ClosingCurlyBracket()]
+            return ClosingCurlyBracket()
         elif value == '(':
-            return [OpeningBracket()]
+            return OpeningBracket()
         elif value == ')':
-            return [ClosingBracket()]
+            return ClosingBracket()
         else:
-            return [Operator(value)]
+            return Operator(value)
 
 
 class WordOperatorMatcher(object):
-- 
2.43.0

