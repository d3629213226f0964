From 63ca20c8b69b79a141aa119c0eff75679a93a588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:59 +0000
Subject: [PATCH 01/25] fix: use the statistics function given to
 Trainer.set_validation()

The function was stored in an attribute that was never read, so that the median
was used regardless of the argument.
---
 theanolm/training/trainer.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/theanolm/training/trainer.py b/theanolm/training/trainer.py
index 68c7252..4662b34 100644
--- a/theanolm/training/trainer.py
+++ b/theanolm/training/trainer.py
@@ -115,8 +115,6 @@ class Trainer(object):
         self._total_updates = 0
         # validation set cost history
         self._cost_history = None
-        # function for averaging cross-validation measurements
-        self._statistics_function = None
         # duration of the last mini-batch update
         self._update_duration = None
 
@@ -148,7 +146,7 @@ class Trainer(object):
             self._samples_per_validation = samples_per_validation
 
         if statistics_function is not None:
-            self._statistics_function = statistics_function
+            self._statistic_function = statistics_function
 
     def set_logging(self, log_interval):
         """Sets logging parameters.
-- 
2.43.0


From 50318304b8a63505ad2a681eb26d7b7b91b25da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:59 +0000
Subject: [PATCH 02/25] fix: save the state after an epoch as the beginning of
 the next epoch

Without validation data, the state was saved before the epoch number was
incremented. A restarted training repeated the epoch, starting with an update
number past the end of the epoch, and a finished training never ended.
---
 theanolm/training/trainer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/theanolm/training/trainer.py b/theanolm/training/trainer.py
index 4662b34..ff06e8b 100644
--- a/theanolm/training/trainer.py
+++ b/theanolm/training/trainer.py
@@ -228,9 +228,6 @@ class Trainer(object):
                 if not self._stopper.start_new_minibatch():
                     break
 
-            if self._validation_iter is None:
-                self._set_candidate_state()
-
             epoch_duration = time() - epoch_start_time
             epoch_minutes = epoch_duration / 60
             epoch_time_h, epoch_time_m = divmod(epoch_minutes, 60)
@@ -245,6 +242,11 @@ class Trainer(object):
             self.epoch_number += 1
             self.update_number = 0
 
+            # The saved state has to be the beginning of the next epoch, so that
+            # a restarted training won't repeat this epoch.
+            if self._validation_iter is None:
+                self._set_candidate_state()
+
         duration = time() - start_time
         minutes = duration / 60
         time_h, time_m = divmod(minutes, 60)
-- 
2.43.0


From 433336f960e133fd26d1b8421e1b46a4b8101bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:59 +0000
Subject: [PATCH 03/25] fix: replace scalar parameters that already exist in
 the state

Selecting [:] from a scalar dataset raises an exception, so the timestep of the
Adam optimizer could be saved to a model file only once.
---
 theanolm/backend/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/theanolm/backend/parameters.py b/theanolm/backend/parameters.py
index c824bf1..4d67836 100644
--- a/theanolm/backend/parameters.py
+++ b/theanolm/backend/parameters.py
@@ -86,7 +86,7 @@ class Parameters:
 
         for path, param in self._vars.items():
             if path in state:
-                state[path][:] = param.get_value()
+                state[path][...] = param.get_value()
             else:
                 state.create_dataset(path, data=param.get_value())
 
-- 
2.43.0


From 8ae23653bc9f967ca20e6b00f13deeba1e1badf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:59 +0000
Subject: [PATCH 04/25] fix: restore the exact position of the training data
 iterator

When training was returned to a saved state, the iterator still emitted the rest
of a sentence that was being read at that time, and if the last mini-batch had
just been read, ended the epoch immediately. The rest of a partially read long
sentence was lost when training was restored or restarted.
---
 theanolm/parsing/shufflingbatchiterator.py | 27 +++++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/theanolm/parsing/shufflingbatchiterator.py b/theanolm/parsing/shufflingbatchiterator.py
index 5a5ad36..891460d 100644
--- a/theanolm/parsing/shufflingbatchiterator.py
+++ b/theanolm/parsing/shufflingbatchiterator.py
@@ -13,7 +13,7 @@ from numpy import random
 
 from theanolm.backend import IncompatibleStateError
 from theanolm.parsing.batchiterator import BatchIterator
-from theanolm.parsing.functions import find_sentence_starts
+from theanolm.parsing.functions import find_sentence_starts, utterance_from_line
 
 class SentencePointers(object):
     """A class that creates a memory map of text files and stores pointers to
@@ -137,11 +137,13 @@ class ShufflingBatchIterator(BatchIterator):
         """Saves the iterator state in a HDF5 file.
 
         Sets ``iterator/order`` to the iteration order, and
-        ``iterator/next_line`` the index to the next sentence in the list. Note
-        that if the program is restarted, the same training files have to be
-        loaded in order for this to work. If there already is a
-        ``iterator/order`` in the state, it will be replaced, so it has to have
-        the same number of elements.
+        ``iterator/next_line`` the index to the next sentence in the list. If the
+        previous sentence has not been read to its end (because sequence length
+        is limited), sets ``iterator/words_left`` to the number of its words that
+        have not been read. Note that if the program is restarted, the same
+        training files have to be loaded in order for this to work. If there
+        already is a ``iterator/order`` in the state, it will be replaced, so it
+        has to have the same number of elements.
 
         :type state: h5py.File
         :param state: HDF5 file for storing the iterator state
@@ -155,6 +157,7 @@ class ShufflingBatchIterator(BatchIterator):
             h5_iterator.create_dataset('order', data=self._order)
 
         h5_iterator.attrs['next_line'] = self._next_line
+        h5_iterator.attrs['words_left'] = len(self._buffer)
 
     def set_state(self, state):
         """Restores the iterator state.
@@ -188,6 +191,18 @@ class ShufflingBatchIterator(BatchIterator):
                       self._next_line,
                       self._order.size)
 
+        # Forget what had been read before restoring the state, and read again
+        # the rest of a sentence that was only partially processed.
+        self._end_of_file = False
+        self._buffer = []
+        words_left = int(h5_iterator.attrs.get('words_left', 0))
+        if words_left > 0:
+            self._next_line -= 1
+            line, file_id = self._readline()
+            self._buffer = [(word, file_id)
+                            for word in utterance_from_line(line)]
+            self._buffer = self._buffer[-words_left:]
+
     def _reset(self, shuffle=True):
         """Resets the read pointer back to the beginning of the data set. If
         ``shuffle`` is set to True, also creates a new random order for
-- 
2.43.0


From e58f28729417551b0edf14d3fc81c827a53cd4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:58 +0000
Subject: [PATCH 05/25] fix: replace the model file atomically when saving

The in-memory HDF5 file was written over the previous model in place, so a kill
during saving, and an interrupt while the candidate state was being copied,
left a model file that is neither the old nor the new state.
---
 theanolm/backend/__init__.py  |  1 +
 theanolm/backend/modelfile.py | 53 +++++++++++++++++++++++++++++++++++
 theanolm/commands/train.py    |  5 ++--
 3 files changed, 56 insertions(+), 3 deletions(-)
 create mode 100644 theanolm/backend/modelfile.py

diff --git a/theanolm/backend/__init__.py b/theanolm/backend/__init__.py
index 074c11f..0ad2b7a 100644
--- a/theanolm/backend/__init__.py
+++ b/theanolm/backend/__init__.py
@@ -5,6 +5,7 @@
 
 from theanolm.backend.exceptions import *
 from theanolm.backend.filetypes import TextFileType
+from theanolm.backend.modelfile import ModelFile
 from theanolm.backend.gpu import get_default_device, log_free_mem
 from theanolm.backend.parameters import Parameters
 from theanolm.backend.classdistribution import UniformDistribution
diff --git a/theanolm/backend/modelfile.py b/theanolm/backend/modelfile.py
new file mode 100644
index 0000000..79c83de
--- /dev/null
+++ b/theanolm/backend/modelfile.py
@@ -0,0 +1,53 @@
+#!/usr/bin/env python3
+# -*- coding: utf-8 -*-
+"""A module that implements the file that training saves a model to.
+"""
+
+import os
+import shutil
+
+import h5py
+
+class ModelFile(h5py.File):
+    """Model File for Training
+
+    An HDF5 file that is modified only in memory. ``flush()`` replaces the file
+    on disk with the current contents. The new contents are first written to a
+    temporary file, so at any time there is a complete state on disk. Changes
+    that have not been flushed are discarded when the file is closed.
+    """
+
+    def __init__(self, path):
+        """Reads a model file into memory, or creates an empty one.
+
+        :type path: str
+        :param path: path to the model file
+        """
+
+        exists = os.path.exists(path)
+        super().__init__(path, 'r+' if exists else 'w', driver='core',
+                         backing_store=False)
+        if not exists:
+            # Fail now rather than when saving, if the file cannot be written.
+            self.flush()
+
+    def flush(self):
+        """Replaces the file on disk with the contents in memory.
+        """
+
+        super().flush()
+
+        path = os.path.realpath(self.filename)
+        temp_path = path + '.tmp'
+        try:
+            with open(temp_path, 'wb') as temp_file:
+                temp_file.write(self.id.get_file_image())
+                temp_file.flush()
+                os.fsync(temp_file.fileno())
+            if os.path.exists(path):
+                shutil.copymode(path, temp_path)
+            os.replace(temp_path, path)
+        except BaseException:
+            if os.path.exists(temp_path):
+                os.remove(temp_path)
+            raise
diff --git a/theanolm/commands/train.py b/theanolm/commands/train.py
index cf9b10c..d0d3e79 100644
--- a/theanolm/commands/train.py
+++ b/theanolm/commands/train.py
@@ -7,12 +7,11 @@ import sys
 import mmap
 import logging
 
-import h5py
 import numpy
 import theano
 
 from theanolm import Vocabulary, Architecture, Network
-from theanolm.backend import TextFileType, get_default_device
+from theanolm.backend import ModelFile, TextFileType, get_default_device
 from theanolm.parsing import LinearBatchIterator
 from theanolm.training import Trainer, create_optimizer, CrossEntropyCost, \
                               NCECost, BlackoutCost
@@ -352,7 +351,7 @@ def train(args):
     theano.config.profile = args.profile
     theano.config.profile_memory = args.profile
 
-    with h5py.File(args.model_path, 'a', driver='core') as state:
+    with ModelFile(args.model_path) as state:
         vocabulary = _read_vocabulary(args, state)
 
         if args.num_noise_samples > vocabulary.num_classes():
-- 
2.43.0


From 946dd4d7ef1db3fd140ff74f87fc0ded21cd7fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:28 +0000
Subject: [PATCH 06/25] fix: report failures to write the last part of the
 output

The output file was closed by the garbage collector, which ignores errors, so
a command exited with status zero although a part of its output was lost.
---
 theanolm/backend/__init__.py  |  2 +-
 theanolm/backend/filetypes.py | 16 ++++++++++++++++
 theanolm/commands/decode.py   |  3 ++-
 theanolm/commands/sample.py   |  3 ++-
 theanolm/commands/score.py    |  3 ++-
 wordclasses/wctool.py         |  3 ++-
 6 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/theanolm/backend/__init__.py b/theanolm/backend/__init__.py
index 0ad2b7a..4168f83 100644
--- a/theanolm/backend/__init__.py
+++ b/theanolm/backend/__init__.py
@@ -4,7 +4,7 @@
 """
 
 from theanolm.backend.exceptions import *
-from theanolm.backend.filetypes import TextFileType
+from theanolm.backend.filetypes import TextFileType, close_output
 from theanolm.backend.modelfile import ModelFile
 from theanolm.backend.gpu import get_default_device, log_free_mem
 from theanolm.backend.parameters import Parameters
diff --git a/theanolm/backend/filetypes.py b/theanolm/backend/filetypes.py
index 7453e14..ed74e22 100644
--- a/theanolm/backend/filetypes.py
+++ b/theanolm/backend/filetypes.py
@@ -9,6 +9,22 @@ import sys
 import argparse
 import gzip
 
+def close_output(output_file):
+    """Makes sure that everything that has been written to an output file
+    reaches the operating system.
+
+    Should be called when a command has written all its output. Otherwise the
+    file would be closed by the garbage collector, which ignores errors, and a
+    failure to write the last part of the output would go unnoticed.
+
+    :type output_file: file object
+    :param output_file: a file object created by ``TextFileType``
+    """
+
+    output_file.flush()
+    if getattr(output_file, 'buffer', None) is not sys.stdout.buffer:
+        output_file.close()
+
 class TextFileType(object):
     """An object that can be passed as the "type" argument to
     ArgumentParser.add_argument() in order to convert a path argument to a
diff --git a/theanolm/commands/decode.py b/theanolm/commands/decode.py
index b2a3ee1..3f83fd1 100644
--- a/theanolm/commands/decode.py
+++ b/theanolm/commands/decode.py
@@ -12,7 +12,7 @@ import numpy
 import theano
 
 from theanolm import Network
-from theanolm.backend import TextFileType
+from theanolm.backend import TextFileType, close_output
 from theanolm.backend import get_default_device, log_free_mem
 from theanolm.scoring import LatticeBatch, LatticeDecoder, RescoredLattice
 
@@ -264,6 +264,7 @@ def decode(args):
                                     args.output)
                 args.output_file.write(line + "\n")
         gc.collect()
+    close_output(args.output_file)
 
 def format_token(token, utterance_id, vocabulary, log_scale, output_format):
     """Formats an output line from a token and an utterance ID.
diff --git a/theanolm/commands/sample.py b/theanolm/commands/sample.py
index 89a8eca..b045398 100644
--- a/theanolm/commands/sample.py
+++ b/theanolm/commands/sample.py
@@ -11,7 +11,7 @@ import theano
 import logging
 
 from theanolm import Vocabulary, Architecture, Network, TextSampler
-from theanolm.backend import TextFileType, get_default_device
+from theanolm.backend import TextFileType, close_output, get_default_device
 
 def add_arguments(parser):
     """Specifies the command line arguments supported by the "theanolm sample"
@@ -98,3 +98,4 @@ def sample(args):
         except ValueError:
             pass
         args.output_file.write(' '.join(sequence) + '\n')
+    close_output(args.output_file)
diff --git a/theanolm/commands/score.py b/theanolm/commands/score.py
index 00da3f2..845c78b 100644
--- a/theanolm/commands/score.py
+++ b/theanolm/commands/score.py
@@ -10,7 +10,7 @@ import numpy
 import theano
 
 from theanolm import Network
-from theanolm.backend import TextFileType, get_default_device
+from theanolm.backend import TextFileType, close_output, get_default_device
 from theanolm.parsing import ScoringBatchIterator
 from theanolm.scoring import TextScorer
 
@@ -129,6 +129,7 @@ def score(args):
     else:
         print("Invalid output format requested:", args.output)
         sys.exit(1)
+    close_output(args.output_file)
 
 def _score_text(input_file, vocabulary, scorer, output_file,
                 log_base=None, subword_marking=None, word_level=False):
diff --git a/wordclasses/wctool.py b/wordclasses/wctool.py
index 41aa852..c891f8b 100644
--- a/wordclasses/wctool.py
+++ b/wordclasses/wctool.py
@@ -5,7 +5,7 @@ import sys
 import argparse
 import logging
 from time import time
-from theanolm.backend import TextFileType
+from theanolm.backend import TextFileType, close_output
 from wordclasses import TheanoBigramOptimizer, NumpyBigramOptimizer
 from theanolm.vocabulary import Vocabulary
 from theanolm.vocabulary import compute_word_counts, BigramStatistics
@@ -157,3 +157,4 @@ def main():
 
     logging.info("Optimization finished.")
     save(optimizer, args.output_file, args.output_format)
+    close_output(args.output_file)
-- 
2.43.0


From c5e190d4f77b2f072406108731eae2c43a56ff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:28 +0000
Subject: [PATCH 07/25] fix: decode lattices without GPU support

Without GPU support theano.gpuarray may not be imported, and logging the amount
of free GPU memory made the decode command fail.
---
 theanolm/backend/gpu.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/theanolm/backend/gpu.py b/theanolm/backend/gpu.py
index 7cd0728..7381883 100644
--- a/theanolm/backend/gpu.py
+++ b/theanolm/backend/gpu.py
@@ -77,7 +77,13 @@ def log_free_mem():
     """Writes the available GPU memory to the debug log.
     """
 
-    for name in theano.gpuarray.type.list_contexts():
+    try:
+        names = theano.gpuarray.type.list_contexts()
+    except AttributeError:
+        # No GPU support or we couldn't list the contexts because an old version
+        # of libgpuarray is installed.
+        return
+    for name in names:
         context = theano.gpuarray.type.get_context(name)
         free_mbytes = context.free_gmem / (1024 * 1024)
         logging.debug("Available memory on GPU %s: %.0f MB", name, free_mbytes)
-- 
2.43.0


From 891f0b0f43459739dd5a9f425f16bcd6a513cd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:28 +0000
Subject: [PATCH 08/25] fix: score utterances that contain out-of-shortlist
 words

TextScorer.score_line() failed with an IndexError, because out-of-shortlist
words do not have a class of their own.
---
 theanolm/scoring/textscorer.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/theanolm/scoring/textscorer.py b/theanolm/scoring/textscorer.py
index 1b36d0a..08d1118 100644
--- a/theanolm/scoring/textscorer.py
+++ b/theanolm/scoring/textscorer.py
@@ -336,10 +336,7 @@ class TextScorer(object):
         self.num_words += word_ids.size
         self.num_unks += numpy.count_nonzero(word_ids == unk_id)
 
-        class_ids = [vocabulary.word_id_to_class_id[word_id]
-                     for word_id in word_ids]
-        probs = [vocabulary.get_word_prob(word_id)
-                 for word_id in word_ids]
+        class_ids, probs = vocabulary.get_class_memberships(word_ids)
 
         return self.score_sequence(word_ids, class_ids, probs)
 
-- 
2.43.0


From 21b39756e002d03227cb69fe5113dcd93811892a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:29 +0000
Subject: [PATCH 09/25] fix: number unnamed utterances the same way regardless
 of the number of jobs

An utterance without an ID was identified by its number within the job, so the
outputs of parallel jobs contained the same IDs for different utterances.
---
 theanolm/commands/decode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theanolm/commands/decode.py b/theanolm/commands/decode.py
index 3f83fd1..5e5b1b1 100644
--- a/theanolm/commands/decode.py
+++ b/theanolm/commands/decode.py
@@ -234,7 +234,8 @@ def decode(args):
                          args.kaldi_vocabulary, args.num_jobs, args.job)
     for lattice_number, lattice in enumerate(batch):
         if lattice.utterance_id is None:
-            lattice.utterance_id = str(lattice_number)
+            # Use a number that is unique among all the jobs.
+            lattice.utterance_id = str(lattice_number * args.num_jobs + args.job)
         logging.info("Utterance `%s´ -- %d of job %d",
                      lattice.utterance_id,
                      lattice_number + 1,
-- 
2.43.0


From 99691a0ab8d44854a3888b6189d69ca12f16f69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:29 +0000
Subject: [PATCH 10/25] fix: use the class membership probability of the
 predicted word in decoding

LatticeDecoder added the class membership probability of the previous word.
---
 theanolm/scoring/latticedecoder.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/theanolm/scoring/latticedecoder.py b/theanolm/scoring/latticedecoder.py
index 1a29dde..f807ba6 100644
--- a/theanolm/scoring/latticedecoder.py
+++ b/theanolm/scoring/latticedecoder.py
@@ -629,13 +629,15 @@ class LatticeDecoder(object):
         input_word_ids = [[limit_to_shortlist(self, token.history[-1])
                            for token in tokens]]
         input_word_ids = numpy.asarray(input_word_ids).astype('int64')
-        input_class_ids, membership_probs = \
+        input_class_ids, _ = \
             self._vocabulary.get_class_memberships(input_word_ids)
         recurrent_state = [token.state for token in tokens]
         recurrent_state = RecurrentState.combine_sequences(recurrent_state)
         target_word_id = limit_to_shortlist(self, target_word)
-        target_class_ids = numpy.ones(shape=(1, len(tokens))).astype('int64')
-        target_class_ids *= self._vocabulary.word_id_to_class_id[target_word_id]
+        target_word_ids = numpy.full((1, len(tokens)), target_word_id,
+                                     dtype='int64')
+        target_class_ids, membership_probs = \
+            self._vocabulary.get_class_memberships(target_word_ids)
         step_result = self._step_function(input_word_ids,
                                           input_class_ids,
                                           target_class_ids,
-- 
2.43.0


From 5027f56d690767c8c2dcda6073dbef404a3f15b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:53 +0000
Subject: [PATCH 11/25] fix: evaluate the log likelihood change of word class
 moves when counts are zero

The sum of a fully masked array is masked, 0 * log(0) is NaN, and conditions on
symbolic variables are always true. Moves that involved zero counts could not
be evaluated and were never made.
---
 wordclasses/numpybigramoptimizer.py  | 37 +++++++++++++++++-----------
 wordclasses/theanobigramoptimizer.py | 17 ++++---------
 2 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/wordclasses/numpybigramoptimizer.py b/wordclasses/numpybigramoptimizer.py
index ea58de4..875c7ba 100644
--- a/wordclasses/numpybigramoptimizer.py
+++ b/wordclasses/numpybigramoptimizer.py
@@ -86,9 +86,9 @@ class NumpyBigramOptimizer(BigramOptimizer):
         :returns: log likelihood of the training corpus
         """
 
-        return (numpy.ma.log(self._cc_counts) * self._cc_counts).sum() + \
-               (numpy.ma.log(self._word_counts) * self._word_counts).sum() - \
-               2 * (numpy.ma.log(self._class_counts) * self._class_counts).sum()
+        return self._xlogx(self._cc_counts).sum() + \
+               self._xlogx(self._word_counts).sum() - \
+               2 * self._xlogx(self._class_counts).sum()
 
     def _evaluate(self, word_id, new_class_id):
         """Evaluates how much moving a word to another class would change the
@@ -100,14 +100,12 @@ class NumpyBigramOptimizer(BigramOptimizer):
         # old class
         old_count = self._class_counts[old_class_id]
         new_count = old_count - self._word_counts[word_id]
-        result = 2 * old_count * numpy.log(old_count)
-        result -= 2 * new_count * numpy.log(new_count)
+        result = -2 * self._ll_change(old_count, new_count)
 
         # new class
         old_count = self._class_counts[new_class_id]
         new_count = old_count + self._word_counts[word_id]
-        result += 2 * old_count * numpy.log(old_count)
-        result -= 2 * new_count * numpy.log(new_count)
+        result -= 2 * self._ll_change(old_count, new_count)
 
         # Iterate over classes other than the old and new class of the word.
         class_ids = numpy.arange(self.num_classes)
@@ -117,26 +115,26 @@ class NumpyBigramOptimizer(BigramOptimizer):
         # old class, class X
         old_counts = self._cc_counts[old_class_id,iter_class_ids]
         new_counts = old_counts - self._wc_counts[word_id,iter_class_ids]
-        result -= (numpy.ma.log(old_counts) * old_counts).sum()
-        result += (numpy.ma.log(new_counts) * new_counts).sum()
+        result -= self._xlogx(old_counts).sum()
+        result += self._xlogx(new_counts).sum()
 
         # new class, class X
         old_counts = self._cc_counts[new_class_id,iter_class_ids]
         new_counts = old_counts + self._wc_counts[word_id,iter_class_ids]
-        result -= (numpy.ma.log(old_counts) * old_counts).sum()
-        result += (numpy.ma.log(new_counts) * new_counts).sum()
+        result -= self._xlogx(old_counts).sum()
+        result += self._xlogx(new_counts).sum()
 
         # class X, old class
         old_counts = self._cc_counts[iter_class_ids,old_class_id]
         new_counts = old_counts - self._cw_counts[iter_class_ids,word_id]
-        result -= (numpy.ma.log(old_counts) * old_counts).sum()
-        result += (numpy.ma.log(new_counts) * new_counts).sum()
+        result -= self._xlogx(old_counts).sum()
+        result += self._xlogx(new_counts).sum()
 
         # class X, new class
         old_counts = self._cc_counts[iter_class_ids,new_class_id]
         new_counts = old_counts + self._cw_counts[iter_class_ids,word_id]
-        result -= (numpy.ma.log(old_counts) * old_counts).sum()
-        result += (numpy.ma.log(new_counts) * new_counts).sum()
+        result -= self._xlogx(old_counts).sum()
+        result += self._xlogx(new_counts).sum()
 
         # old class, new class
         old_count = self._cc_counts[old_class_id,new_class_id]
@@ -180,6 +178,15 @@ class NumpyBigramOptimizer(BigramOptimizer):
             result += new_count * numpy.log(new_count)
         return result
 
+    @staticmethod
+    def _xlogx(x):
+        """A helper function that computes ``x * log(x)``, where ``x`` is an
+        array that may contain zeros.
+        """
+
+        # The sum of a fully masked array would be masked instead of zero.
+        return numpy.ma.log(x).filled(0) * x
+
     def _move(self, word_id, new_class_id):
         """Moves a word to another class.
         """
diff --git a/wordclasses/theanobigramoptimizer.py b/wordclasses/theanobigramoptimizer.py
index 1854cc1..4321c8c 100644
--- a/wordclasses/theanobigramoptimizer.py
+++ b/wordclasses/theanobigramoptimizer.py
@@ -120,14 +120,12 @@ class TheanoBigramOptimizer(BigramOptimizer):
         # old class
         old_count = old_class_count
         new_count = old_count - word_count
-        result = 2 * old_count * tensor.log(old_count)
-        result -= 2 * new_count * tensor.log(new_count)
+        result = -2 * self._ll_change(old_count, new_count)
 
         # new class
         old_count = new_class_count
         new_count = old_count + word_count
-        result += 2 * old_count * tensor.log(old_count)
-        result -= 2 * new_count * tensor.log(new_count)
+        result -= 2 * self._ll_change(old_count, new_count)
 
         # Iterate over classes other than the old and new class of the word.
         class_ids = tensor.arange(self.num_classes)
@@ -304,18 +302,13 @@ class TheanoBigramOptimizer(BigramOptimizer):
             result,
             name='class_size')
 
-    @staticmethod
-    def _ll_change(old_count, new_count):
+    @classmethod
+    def _ll_change(cls, old_count, new_count):
         """A helper function that computes the log likelihood change when a
         count changes.
         """
 
-        result = 0
-        if old_count != 0:
-            result -= old_count * tensor.log(old_count)
-        if new_count != 0:
-            result += new_count * tensor.log(new_count)
-        return result
+        return cls._xlogx(new_count) - cls._xlogx(old_count)
 
     @staticmethod
     def _xlogx(x):
-- 
2.43.0


From 34c2b3e983b04f3063421a7ff99efa7410a2d35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:53 +0000
Subject: [PATCH 12/25] fix: move a word that no other word precedes or follows

---
 wordclasses/numpybigramoptimizer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wordclasses/numpybigramoptimizer.py b/wordclasses/numpybigramoptimizer.py
index 875c7ba..1c79888 100644
--- a/wordclasses/numpybigramoptimizer.py
+++ b/wordclasses/numpybigramoptimizer.py
@@ -200,7 +200,8 @@ class NumpyBigramOptimizer(BigramOptimizer):
 
         # word, word X
         right_word_ids = numpy.asarray(
-            [id for id in self._ww_counts[word_id,:].nonzero()[1] if id != word_id])
+            [id for id in self._ww_counts[word_id,:].nonzero()[1] if id != word_id],
+            dtype=int)
         right_class_ids = self._word_to_class[right_word_ids]
         counts = self._ww_counts[word_id,right_word_ids].toarray().flatten()
         self._cw_counts[old_class_id,right_word_ids] -= counts
@@ -210,7 +211,8 @@ class NumpyBigramOptimizer(BigramOptimizer):
 
         # word X, word
         left_word_ids = numpy.asarray(
-            [id for id in self._ww_counts[:,word_id].nonzero()[0] if id != word_id])
+            [id for id in self._ww_counts[:,word_id].nonzero()[0] if id != word_id],
+            dtype=int)
         left_class_ids = self._word_to_class[left_word_ids]
         counts = self._ww_counts[left_word_ids,word_id].toarray().flatten()
         self._wc_counts[left_word_ids,old_class_id] -= counts
-- 
2.43.0


From e16281e538ce5bf8c1fb25dd7b46c33cb80f57cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:53 +0000
Subject: [PATCH 13/25] fix: do not take rounding errors for improvements of
 word classes

Words could be moved between equally good classes forever.
---
 wordclasses/bigramoptimizer.py       | 13 +++++++++----
 wordclasses/numpybigramoptimizer.py  |  2 +-
 wordclasses/theanobigramoptimizer.py |  2 +-
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/wordclasses/bigramoptimizer.py b/wordclasses/bigramoptimizer.py
index 743dd5f..601a905 100644
--- a/wordclasses/bigramoptimizer.py
+++ b/wordclasses/bigramoptimizer.py
@@ -9,12 +9,12 @@ class BigramOptimizer(object):
     """Word Class Optimizer
     """
 
-    def __init__(self, vocabulary, count_type = 'int32'):
+    def __init__(self, statistics, vocabulary, count_type = 'int32'):
         """Reads the vocabulary from the text ``corpus_file`` and creates word
         IDs. The vocabulary may be restricted by ``vocabulary_file``.
 
-        :type corpus_file: file object
-        :param corpus_file: a file that contains the input sentences
+        :type statistics: BigramStatistics
+        :param statistics: word statistics from the training corpus
 
         :type vocabulary: theanolm.Vocabulary
         :param vocabulary: words to include in the optimization and initial classes
@@ -25,6 +25,11 @@ class BigramOptimizer(object):
         self.num_classes = vocabulary.num_classes()
         self.num_normal_classes = vocabulary.num_normal_classes
         self._count_type = count_type
+        # Smaller log likelihood differences may be just rounding errors. A word
+        # could be moved between equally good classes forever, if they were
+        # considered improvements.
+        num_tokens = float(statistics.unigram_counts.sum())
+        self._min_ll_diff = 1e-12 * num_tokens * numpy.log(num_tokens)
 
     def move_to_best_class(self, word):
         """Moves a word to the class that minimizes training set log likelihood.
@@ -44,7 +49,7 @@ class BigramOptimizer(object):
             return False
 
         ll_diff, new_class_id = self._find_best_move(word_id)
-        if ll_diff > 0:
+        if ll_diff > self._min_ll_diff:
             self._move(word_id, new_class_id)
             return True
         else:
diff --git a/wordclasses/numpybigramoptimizer.py b/wordclasses/numpybigramoptimizer.py
index 1c79888..9f1edd8 100644
--- a/wordclasses/numpybigramoptimizer.py
+++ b/wordclasses/numpybigramoptimizer.py
@@ -26,7 +26,7 @@ class NumpyBigramOptimizer(BigramOptimizer):
         if statistics.bigram_counts.nnz == 0:
             raise ValueError("Empty word bigram statistics.")
 
-        super().__init__(vocabulary)
+        super().__init__(statistics, vocabulary)
 
         # Create word counts.
         self._word_counts = statistics.unigram_counts
diff --git a/wordclasses/theanobigramoptimizer.py b/wordclasses/theanobigramoptimizer.py
index 4321c8c..fe1f3c9 100644
--- a/wordclasses/theanobigramoptimizer.py
+++ b/wordclasses/theanobigramoptimizer.py
@@ -30,7 +30,7 @@ class TheanoBigramOptimizer(BigramOptimizer):
             raise ValueError("Empty word bigram statistics.")
 
         # Sparse classes in Theano 0.8 support only int32 indices.
-        super().__init__(vocabulary, 'int32')
+        super().__init__(statistics, vocabulary, 'int32')
 
         # Create word counts.
         word_counts = statistics.unigram_counts
-- 
2.43.0


From 45f4a2d3189d9c6a24bd5890dc729e0fc87888cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:53 +0000
Subject: [PATCH 14/25] fix: write a snapshot of the word classes to disk when
 it is saved

---
 wordclasses/wctool.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wordclasses/wctool.py b/wordclasses/wctool.py
index c891f8b..30842bd 100644
--- a/wordclasses/wctool.py
+++ b/wordclasses/wctool.py
@@ -36,6 +36,7 @@ def save(optimizer, output_file, output_format):
             output_file.write('{} {}\n'.format(word, class_id))
         elif output_format == 'srilm-classes':
             output_file.write('CLASS-{:05d} {} {}\n'.format(class_id, prob, word))
+    output_file.flush()
 
 def main():
     parser = argparse.ArgumentParser(prog='wctool')
-- 
2.43.0


From 42ee74eb15b1b1471ca01d3872af191de9f2f8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:44 +0000
Subject: [PATCH 15/25] fix: read word classes whose words have zero membership
 probabilities

wctool writes such classes, for example the class of <unk>, when the words do
not occur in the training data.
---
 theanolm/vocabulary/wordclass.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/theanolm/vocabulary/wordclass.py b/theanolm/vocabulary/wordclass.py
index fcb69af..b487e0b 100644
--- a/theanolm/vocabulary/wordclass.py
+++ b/theanolm/vocabulary/wordclass.py
@@ -76,11 +76,17 @@ class WordClass(object):
 
     def normalize_probs(self):
         """Normalizes the class membership probabilities to sum to one.
+
+        If all the probabilities are zero (none of the words occurred in the
+        data that the probabilities were computed from), makes them uniform.
         """
 
         prob_sum = sum(self._probs.values())
         for word_id in self._probs:
-            self._probs[word_id] /= prob_sum
+            if prob_sum > 0:
+                self._probs[word_id] /= prob_sum
+            else:
+                self._probs[word_id] = 1.0 / len(self._probs)
 
     def sample(self):
         """Samples a word from the membership probability distribution.
-- 
2.43.0


From 324aba30bd15cd17754877f3258e199cf43fc1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:17 +0000
Subject: [PATCH 16/25] fix: keep padding out of the backward pass of
 bidirectional layers

The scores of an utterance depended on how long the other utterances in its
mini-batch were: the backward layer saw whatever followed the last time steps of
a sequence.
---
 theanolm/network/grulayer.py  | 4 ++++
 theanolm/network/lstmlayer.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/theanolm/network/grulayer.py b/theanolm/network/grulayer.py
index 61d3320..ddcfc4c 100644
--- a/theanolm/network/grulayer.py
+++ b/theanolm/network/grulayer.py
@@ -78,6 +78,10 @@ class GRULayer(BasicLayer):
             # bidirectional layer. The target word is the next input word, so
             # otherwise predicting it will be trivial.
             preact_dim = layer_input_preact.shape[2]
+            # Whatever comes after the end of a sequence must not be visible to
+            # its last time steps, when the mini-batch is longer.
+            mask = tensor.cast(self._network.mask, theano.config.floatX)
+            layer_input_preact *= mask[:, :, None]
             padding = tensor.zeros([2, num_sequences, preact_dim])
             layer_input_preact = tensor.concatenate(
                 [layer_input_preact[2:], padding],
diff --git a/theanolm/network/lstmlayer.py b/theanolm/network/lstmlayer.py
index 73c3016..c4e9a12 100644
--- a/theanolm/network/lstmlayer.py
+++ b/theanolm/network/lstmlayer.py
@@ -83,6 +83,10 @@ class LSTMLayer(BasicLayer):
             # bidirectional layer. The target word is the next input word, so
             # otherwise predicting it will be trivial.
             preact_dim = layer_input_preact.shape[2]
+            # Whatever comes after the end of a sequence must not be visible to
+            # its last time steps, when the mini-batch is longer.
+            mask = tensor.cast(self._network.mask, theano.config.floatX)
+            layer_input_preact *= mask[:, :, None]
             padding = tensor.zeros([2, num_sequences, preact_dim])
             layer_input_preact = tensor.concatenate(
                 [layer_input_preact[2:], padding],
-- 
2.43.0


From a2cf8b1c3603be2062921cda419906728ec5993d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:17 +0000
Subject: [PATCH 17/25] fix: read the inputs of a stored architecture in their
 numeric order

Inputs were sorted as strings, so an architecture with more than ten inputs, or
a layer with more than ten inputs, was restored in another order.
---
 theanolm/network/architecture.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theanolm/network/architecture.py b/theanolm/network/architecture.py
index 57a4d8a..0d92fb1 100644
--- a/theanolm/network/architecture.py
+++ b/theanolm/network/architecture.py
@@ -62,7 +62,7 @@ class Architecture(object):
                 "network state.")
         h5_inputs = h5_arch['inputs']
         inputs = []
-        for input_id in sorted(h5_inputs.keys()):
+        for input_id in sorted(h5_inputs.keys(), key=int):
             h5_input = h5_inputs[input_id]
             inputs.append(cls._read_h5_dict(h5_input))
 
@@ -276,7 +276,7 @@ class Architecture(object):
         for variable in h5_dict:
             values = []
             h5_values = h5_dict[variable]
-            for value_id in sorted(h5_values.attrs.keys()):
+            for value_id in sorted(h5_values.attrs.keys(), key=int):
                 values.append(h5_values.attrs[value_id])
             result[variable] = values
         return result
-- 
2.43.0


From 9a8491707a3b2d2386b0a7c1c97a440cae9d78cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:49 +0000
Subject: [PATCH 18/25] fix: refuse a state whose architecture contains more
 than the given one

Training continued from a state with additional inputs, layers, layer inputs or
layer options (e.g. an activation function) as if they had not been there.
---
 theanolm/network/architecture.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/theanolm/network/architecture.py b/theanolm/network/architecture.py
index 0d92fb1..7660da7 100644
--- a/theanolm/network/architecture.py
+++ b/theanolm/network/architecture.py
@@ -233,6 +233,10 @@ class Architecture(object):
                 "Architecture parameter 'inputs' is missing from neural "
                 "network state.")
         h5_inputs = h5_arch['inputs']
+        if len(h5_inputs) != len(self.inputs):
+            raise IncompatibleStateError(
+                "Neural network state has {1} inputs, while this architecture "
+                "has {0}.".format(len(self.inputs), len(h5_inputs)))
         for input_id, input_value in enumerate(self.inputs):
             h5_input = h5_inputs[str(input_id)]
             self._check_h5_dict(h5_input, input_value)
@@ -242,6 +246,10 @@ class Architecture(object):
                 "Architecture parameter 'layers' is missing from neural "
                 "network state.")
         h5_layers = h5_arch['layers']
+        if len(h5_layers) != len(self.layers):
+            raise IncompatibleStateError(
+                "Neural network state has {1} layers, while this architecture "
+                "has {0}.".format(len(self.layers), len(h5_layers)))
         for layer_id, layer in enumerate(self.layers):
             h5_layer = h5_layers[str(layer_id)]
             self._check_h5_dict(h5_layer, layer)
@@ -323,6 +331,13 @@ class Architecture(object):
                           strings
         """
 
+        for variable in h5_group.attrs:
+            if variable not in variables:
+                raise IncompatibleStateError(
+                    "Neural network state has {}={}, which this architecture "
+                    "does not specify."
+                    .format(variable, h5_group.attrs[variable]))
+
         for variable, values in variables.items():
             if isinstance(values, list):
                 # For backward compatibility. Remove at some point.
@@ -335,6 +350,12 @@ class Architecture(object):
                             "while this architecture uses {}."
                             .format(', '.join(str(x) for x in values)))
                 h5_values = h5_group[variable]
+                if (variable != 'devices') and \
+                   (len(h5_values.attrs) != len(values)):
+                    raise IncompatibleStateError(
+                        "Neural network state has {1} {0}, while this "
+                        "architecture has {2}."
+                        .format(variable, len(h5_values.attrs), len(values)))
                 for value_id, value in enumerate(values):
                     h5_value = h5_values.attrs[str(value_id)]
                     if value != h5_value:
-- 
2.43.0


From 986dfdb5ba1b4f53b29750b6cc5b270973808de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:49 +0000
Subject: [PATCH 19/25] fix: refuse to train a model whose training state is
 missing

When the model file contained a network but no training state, training was
started from random parameters, and overwrote the network.
---
 theanolm/training/trainer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theanolm/training/trainer.py b/theanolm/training/trainer.py
index ff06e8b..c4b3219 100644
--- a/theanolm/training/trainer.py
+++ b/theanolm/training/trainer.py
@@ -180,7 +180,8 @@ class Trainer(object):
         self._optimizer = optimizer
 
         self._candidate_state = state
-        if 'trainer' in self._candidate_state:
+        if ('trainer' in self._candidate_state) or \
+           ('layers' in self._candidate_state):
             print("Restoring initial network state from {}.".format(
                 self._candidate_state.filename))
             sys.stdout.flush()
-- 
2.43.0


From b933fb9e3ed1a1f7d5b8a31419f4eb1c7efdc6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:54 +0000
Subject: [PATCH 20/25] fix: do not overflow the file IDs of more than 128
 training files

---
 theanolm/parsing/batchiterator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/theanolm/parsing/batchiterator.py b/theanolm/parsing/batchiterator.py
index 9e1810b..0def530 100644
--- a/theanolm/parsing/batchiterator.py
+++ b/theanolm/parsing/batchiterator.py
@@ -209,13 +209,13 @@ class BatchIterator(object, metaclass=ABCMeta):
         shape = (batch_length, num_sequences)
         word_ids = numpy.ones(shape, numpy.int64) * unk_id
         mask = numpy.zeros(shape, numpy.int8)
-        file_ids = numpy.zeros(shape, numpy.int8)
+        file_ids = numpy.zeros(shape, numpy.int64)
 
         for i, sequence in enumerate(sequences):
             length = len(sequence)
 
             sequence_word_ids = numpy.ones(length, numpy.int64) * unk_id
-            sequence_file_ids = numpy.zeros(length, numpy.int8)
+            sequence_file_ids = numpy.zeros(length, numpy.int64)
             for index, (word, file_id) in enumerate(sequence):
                 if word in self._vocabulary:
                     word_id = self._vocabulary.word_to_id[word]
-- 
2.43.0


From 61549ac87b6fd7cc5ac8c7501004857dc947690f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:04 +0000
Subject: [PATCH 21/25] fix: include the weights of the final states in
 rescored lattices

---
 theanolm/scoring/rescoredlattice.py | 50 +++++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 3 deletions(-)

diff --git a/theanolm/scoring/rescoredlattice.py b/theanolm/scoring/rescoredlattice.py
index 41566db..400d0bc 100644
--- a/theanolm/scoring/rescoredlattice.py
+++ b/theanolm/scoring/rescoredlattice.py
@@ -54,6 +54,40 @@ def _follow_word_from_node(node, word):
             transitions += link.transitions
         return (end_node, ac_logprob, lm_logprob, transitions)
 
+def _follow_null_links_to_end(node):
+    """Follows null links from given node to a final node.
+
+    In Kaldi lattices the weights of the final states are such links.
+
+    :type node: Lattice.Node
+    :param node: node where to start searching
+
+    :rtype: tuple of (float, float, str)
+    :returns: the total acoustic log probability, LM log probability, and
+              transition IDs of the null links, or ``None`` if they don't lead
+              to a final node
+    """
+
+    if node.final:
+        return (0.0, 0.0, "")
+
+    for link in node.out_links:
+        if link.word is not None:
+            continue
+        result = _follow_null_links_to_end(link.end_node)
+        if result is None:
+            continue
+        ac_logprob, lm_logprob, transitions = result
+        if link.ac_logprob is not None:
+            ac_logprob += link.ac_logprob
+        if link.lm_logprob is not None:
+            lm_logprob += link.lm_logprob
+        if link.transitions is not None:
+            transitions = link.transitions + transitions
+        return (ac_logprob, lm_logprob, transitions)
+
+    return None
+
 class RescoredLattice(Lattice):
     """Rescored Lattice
 
@@ -127,10 +161,20 @@ class RescoredLattice(Lattice):
             # For the final link we set the NNLM log probability of the entire
             # path. The created lattice is a tree, so we can equivalently set
             # the entire path probability in the final link.
+            # The null links that end the path in the original lattice are
+            # included too.
+            orig_node = original_lattice.initial_node
+            for word in token.history_words(vocabulary)[1:]:
+                next_node = _follow_word_from_node(orig_node, word)[0]
+                if next_node is not None:
+                    orig_node = next_node
+            end = _follow_null_links_to_end(orig_node)
+            ac_logprob, lm_logprob, transitions = \
+                end if end is not None else (0.0, 0.0, "")
             link = self.Link(node, final_node, word=None,
-                             ac_logprob=0,
-                             lm_logprob=token.nn_lm_logprob,
-                             transitions="")
+                             ac_logprob=ac_logprob,
+                             lm_logprob=token.nn_lm_logprob + lm_logprob,
+                             transitions=transitions)
             node.out_links.append(link)
             self.links.append(link)
 
-- 
2.43.0


From 5ead3810540fab8980c6df7db721f0a25b5c755e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:40 +0000
Subject: [PATCH 22/25] fix: score texts with sentences that have no predicted
 words

With --output word-scores, a sentence in which no word gets a probability
(e.g. all words are excluded) ended scoring in a division by zero.
---
 theanolm/commands/score.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/theanolm/commands/score.py b/theanolm/commands/score.py
index 845c78b..8b84797 100644
--- a/theanolm/commands/score.py
+++ b/theanolm/commands/score.py
@@ -216,8 +216,10 @@ def _score_text(input_file, vocabulary, scorer, output_file,
                 output_file.write("# Sentence {0}\n".format(num_sentences))
                 _write_word_scores(vocabulary, merged_words, merged_logprobs,
                                    output_file, log_scale)
-                output_file.write("Sentence perplexity: {0}\n\n".format(
-                    numpy.exp(-seq_logprob / num_seq_probs)))
+                if num_seq_probs > 0:
+                    output_file.write("Sentence perplexity: {0}\n".format(
+                        numpy.exp(-seq_logprob / num_seq_probs)))
+                output_file.write("\n")
 
     output_file.write("Number of sentences: {0}\n".format(num_sentences))
     output_file.write("Number of words: {0}\n".format(num_words))
@@ -228,7 +230,7 @@ def _score_text(input_file, vocabulary, scorer, output_file,
                       .format(num_unks))
     output_file.write("Number of zero probabilities: {0}\n"
                       .format(num_zeroprobs))
-    if num_words > 0:
+    if num_probs > 0:
         cross_entropy = -total_logprob / num_probs
         perplexity = numpy.exp(cross_entropy)
         output_file.write("Cross entropy (base e): {0}\n".format(cross_entropy))
-- 
2.43.0


From 6ed98b9b1ac2b5bd36834bdb6e67f3e4c9ba2f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:54 +0000
Subject: [PATCH 23/25] fix: sample only existing words from hierarchical
 softmax

When the number of outputs does not fill the two levels of the hierarchical
softmax, the probabilities of the existing outputs do not sum to one. The
text sampler generated the first word of the vocabulary (or failed) with the
remaining probability.
---
 theanolm/textsampler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/theanolm/textsampler.py b/theanolm/textsampler.py
index c92c0c7..b4d9192 100644
--- a/theanolm/textsampler.py
+++ b/theanolm/textsampler.py
@@ -38,6 +38,9 @@ class TextSampler(object):
         # multinomial() is only implemented for dimension <= 2, but the matrix
         # contains only one time step anyway.
         output_probs = network.output_probs()[0]
+        # Hierarchical softmax may reserve some probability for outputs that
+        # don't correspond to any class.
+        output_probs /= output_probs.sum(1, keepdims=True)
         # Theano doesn't set a test value to some of it's internal variables.
         # Disable the warning since there's nothing we can do.
         compute_test_value = theano.config.compute_test_value
-- 
2.43.0


From 58ca015d3b56c84e3c6e3ad8dd0059b030f24739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:24 +0000
Subject: [PATCH 24/25] fix: skip mini-batches without words to predict in the
 cost

With --exclude-unk, if all the words of a mini-batch were excluded, the cost
was divided by zero and the parameters became NaN.
---
 theanolm/training/cost.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/theanolm/training/cost.py b/theanolm/training/cost.py
index 1e02cc9..48ccfd6 100644
--- a/theanolm/training/cost.py
+++ b/theanolm/training/cost.py
@@ -84,7 +84,8 @@ class Cost(object, metaclass=ABCMeta):
         # float64 and pulled out from the GPU earlier than necessary.
         logprobs = self._get_logprobs() * tensor.cast(mask, theano.config.floatX)
         num_words = mask.sum()
-        cost = -logprobs.sum() / num_words
+        # If all the words are excluded, the cost is zero.
+        cost = -logprobs.sum() / tensor.maximum(num_words, 1)
 
         model_params = self._network.get_variables().values()
         l1_weight = self._l1_regularization
-- 
2.43.0


From 56d23ad3c39ec92e6e0368576a5930e68e5ce38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:00 +0000
Subject: [PATCH 25/25] fix: scale mini-batch updates by the weights of
 training files

The weights given by --weights were computed, but the result was not used.
---
 theanolm/training/basicoptimizer.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/theanolm/training/basicoptimizer.py b/theanolm/training/basicoptimizer.py
index 6f1af45..0c9056d 100644
--- a/theanolm/training/basicoptimizer.py
+++ b/theanolm/training/basicoptimizer.py
@@ -109,11 +109,7 @@ class BasicOptimizer(object, metaclass=ABCMeta):
                                 dtype=theano.config.floatX)
         weights.tag.test_value = test_value(size=(100, 16), high=1.0)
         word_positions = tensor.eq(self.network.mask, 1).nonzero()
-        weight = weights[word_positions].sum()
-        num_words_float = tensor.cast(num_words, theano.config.floatX)
-        modified_alpha = tensor.switch(tensor.gt(num_words, 0),
-                                       alpha * weight / num_words_float,
-                                       alpha)
+        modified_alpha = alpha * weights[word_positions].mean()
 
         # Ignore unused input, because is_training is only used by dropout
         # layer.
@@ -128,7 +124,7 @@ class BasicOptimizer(object, metaclass=ABCMeta):
                     (self.network.is_training, numpy.int8(1)),
                     (self.network.num_noise_samples,
                      numpy.int64(num_noise_samples))],
-            updates=self._get_param_updates(alpha),
+            updates=self._get_param_updates(modified_alpha),
             name='update_function',
             on_unused_input='ignore',
             profile=profile)
-- 
2.43.0

