"""Scoring, decoding, sampling and training objects that share a history.

One process owns the real objects (networks, scorers, decoders, samplers,
optimizers, batch iterators).  A seeded schedule decides which operation runs
next and with which data; faults abort operations in the middle.  The reference
for an utterance is computed in a forked process in which nothing else has been
scored and the utterance is alone in its mini-batch.
"""

import io
import os
import pickle

from sim import cmds, realnet
from sim.core import HarnessError, Violation
from sim.realnet import numpy, h5py
from theanolm.network import Network
from theanolm.parsing import LinearBatchIterator, ScoringBatchIterator
from theanolm.scoring import TextScorer

TOL = 1e-8


def isolated(fn):
    """The result of fn() computed in a forked process."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rfd)
            try:
                data = pickle.dumps(('ok', fn()))
            except BaseException as e:      # pylint: disable=broad-except
                import traceback
                from sim.core import repo_frames
                data = pickle.dumps(('error', (traceback.format_exc()[-1500:], bool(repo_frames(e.__traceback__)))))
            while data:
                data = data[os.write(wfd, data):]
            code = 0
        finally:
            os._exit(code)
    os.close(wfd)
    chunks = []
    while True:
        c = os.read(rfd, 1 << 16)
        if not c:
            break
        chunks.append(c)
    os.close(rfd)
    os.waitpid(pid, 0)
    if not chunks:
        raise HarnessError('an isolated computation died')
    kind, value = pickle.loads(b''.join(chunks))
    if kind == 'error':
        if value[1]:
            raise Violation('fails-alone', value[0])
        raise HarnessError(value[0])
    return value


def close(a, b):
    if a is None or b is None:
        return a is b
    a, b = float(a), float(b)
    if a != a or b != b:
        return False
    if a == b:
        return True
    return abs(a - b) <= TOL * max(1.0, abs(a), abs(b)) and abs(a - b) != float('inf')


def same(xs, ys):
    return len(xs) == len(ys) and all(close(x, y) for x, y in zip(xs, ys))


class Source(io.StringIO):
    """A text file whose reading can be made to fail."""
    fail_at = None

    def readline(self, *a):
        if self.fail_at is not None:
            if self.fail_at <= 0:
                raise OSError(5, 'simulated read error')
            self.fail_at -= 1
        return super().readline(*a)


def pieces(words, length):
    """The sequences that an utterance is cut into."""
    if length is None:
        return [words] if len(words) >= 2 else []
    out = [words[i:i + length] for i in range(0, len(words), length)]
    return [p for p in out if len(p) >= 2]


def utterance(line):
    ws = line.split()
    if not ws:
        return []
    if ws[0] != '<s>':
        ws = ['<s>'] + ws
    if ws[-1] != '</s>':
        ws = ws + ['</s>']
    return ws


class World:
    """The objects of one run."""

    def __init__(self, plan, path, vocabulary=None):
        self.plan = plan
        self.path = path
        self.network = Network.from_file(path)
        self.vocabulary = self.network.vocabulary
        self.scorers = {}
        for use_shortlist, exclude_unk in plan['scorers']:
            self.scorers[(use_shortlist, exclude_unk)] = TextScorer(self.network, use_shortlist=use_shortlist, exclude_unk=exclude_unk)

    def restore(self):
        with h5py.File(self.path, 'r') as f:
            self.network.set_state(f)


def score_words(scorer, vocabulary, words):
    """Scores of one sequence that is alone in its mini-batch."""
    ids = numpy.asarray([[vocabulary.word_to_id[w] if w in vocabulary else vocabulary.word_to_id['<unk>']] for w in words], dtype='int64')
    class_ids, probs = vocabulary.get_class_memberships(ids)
    mask = numpy.ones(ids.shape, numpy.int8)
    res = scorer.score_batch(ids, class_ids, probs, mask)
    return [None if x is None else float(x) for x in res[0]]


def gen_world(rng, archs):
    m = cmds.gen_model(rng, archs=archs)
    m['noise'] = rng.choice([0.3, 0.7])
    if m['unigram'] and rng.random() < 0.3:
        # words that do not occur in the training data
        for i in range(len(m['words'])):
            if rng.random() < 0.2:
                m['counts'][i] = 0
        m['counts'][0] = 3
    return m
