import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":state,"meaning":state,"where":files[0]}]
    if observe: a["observe_at"]=[observe]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

TR="theanolm/training/trainer.py"; SH="theanolm/parsing/shufflingbatchiterator.py"; BI="theanolm/parsing/batchiterator.py"
p("C01","Interrupted training resumes exactly from the saved state",
"Whenever training is stopped or killed and restarted from its model file with the same data and options, it continues from exactly the saved point: the same network and optimizer parameters, learning rate, epoch and update count and validation history, and the same not yet processed part of the current epoch. Until the next reshuffling of the data, the restarted run performs exactly the mini-batch updates that the uninterrupted run performed after that save (unless the network itself draws random numbers, as dropout and noise sampling do). Training without validation data is saved after every epoch, and never repeats an epoch that has been saved.",
["crash_points","histories","configurations"],
"for every point at which training is killed or interrupted, any number of times, every optimizer, batch size, sequence length limit, number of training files, validation setting and annealing history",
"the equality concerns whole histories (update sequences before and after arbitrary kill points); a test resumes once, at one hand-picked point, and mostly checks that values are loaded",
[TR,SH,BI,"theanolm/training/basicoptimizer.py","theanolm/backend/parameters.py","theanolm/network/network.py","theanolm/commands/train.py"],
[("saving the training state",TR+":Trainer.get_state"),("restoring the training state",TR+":Trainer._reset_state"),("iterator position",SH+":get_state/set_state"),("parameter state","theanolm/backend/parameters.py:Parameters")],
"HDF5 groups trainer, iterator, optimizer, layers","batches and parameters seen by the optimizer at every update, before and after restart")
p("C02","A kill at any moment leaves the last saved model intact on disk",
"At whatever moment the training process is killed, the model file on disk is a complete and loadable model equal to the last state that training had saved; if the kill comes while a state is being saved, it is that state or the previous one, never a mixture of two. Before the first save there is no file, or one from which training can be started. A save is on disk before the next mini-batch update starts. A save that the operating system rejects (I/O error, full disk) ends training with an error instead of being ignored.",
["crash_points","fault_sequences"],
"for every kill point between or inside the writes issued for the model file, and every write error, short write or interrupted system call at any of them",
"requires controlling the point of death relative to individual disk writes; tests never kill the process or fail a write",
[TR,"theanolm/commands/train.py"],
[("candidate save and flush",TR+":Trainer._set_candidate_state"),("model file life cycle","theanolm/commands/train.py:train")],
"bytes of the model file after each write system call","disk image at the kill point, read by an independent HDF5 reader")
p("C03","The model file always holds the best validated state",
"While training with validation data, the model file always holds, complete and unmixed, the state that gave the lowest validation cost so far, where a new state counts as better only if its cost is less than 0.999 times that of the state it replaces (the first validation always counts). The stored state is the one at the center of the updates over which that cost was measured, and its stored cost history ends with that cost. States that did not improve are never written to the model file.",
["histories","schedules","configurations"],
"for every sequence of validation costs, including equal and barely better ones, every validation frequency and patience, and across annealing, kills and restarts",
"the guarantee is an invariant over all cost histories; tests check one monotone history",
[TR],
[("improvement decision",TR+":Trainer._has_improved"),("center state and candidate",TR+":Trainer._validate, _set_candidate_state")],
"model file content vs. history of validated states","model file after every update and validation")
p("C04","Annealing returns to the best state and halves the learning rate",
"When more consecutive validations than the patience allows have failed to improve on the best state, and only then, the learning rate becomes half of its current value and training continues from exactly the best saved state: its parameters, optimizer state, epoch and update counts, validation history and not yet processed part of the epoch. A negative patience disables this.",
["histories","schedules","configurations"],
"for every sequence of validation costs, any number of successive annealings, including ones that go back over an epoch boundary, occur at the last mini-batch of an epoch, or follow a restart",
"depends on the combination of cost history, position in the epoch and earlier annealings; tests never run a rollback through the data iterator",
[TR,SH,"theanolm/training/basicoptimizer.py"],
[("annealing",TR+":Trainer._decrease_learning_rate, _validate"),("iterator rollback",SH+":set_state")],
None,"updates seen by the optimizer after every validation")
p("C05","Every epoch trains on every sentence exactly once, in a fresh random order",
"Within one epoch the trainer passes every training sentence to the optimizer exactly once, with its own words, word classes, training file and mask, long sentences being cut into consecutive pieces of the maximum length (a leftover single token is dropped, empty lines are skipped). Sentences of all training files are mixed in an order that is freshly randomized for every epoch, and with sampling exactly the requested share of every file is used. This also holds for an epoch interrupted by annealing or by a restart: the pieces before and after the interruption together form exactly one pass.",
["inputs","histories","schedules","crash_points","configurations"],
"for every set of training files, batch size and length limit, and every history of rollbacks, kills and restarts within the epoch",
"exactly-once over an interrupted and rolled back pass is a property of the history, not of one iteration over a fixture",
[SH,BI,"theanolm/parsing/functions.py",TR],
[("shuffling and position",SH+":_reset, _readline, get_state, set_state"),("splitting, masking, out-of-shortlist mapping",BI+":__next__, _read_sequence, _prepare_batch"),("sentence offsets","theanolm/parsing/functions.py:find_sentence_starts")],
None,"arguments of every mini-batch update")
p("C06","Training stops exactly when the chosen stopping criterion says",
"Training performs the minimum number of epochs and never starts one beyond the maximum. With the annealing-count criterion it stops at the first annealing after the allowed count, with the no-improvement criterion at the first annealing that found no better state since the previous annealing, unless a better state is found while the minimum number of epochs is still being completed; with epoch-count it performs exactly the maximum number of epochs. Otherwise training never stops early. Once validation costs no longer improve, it ends within a bounded number of updates, provided that the patience is not negative and the best state lies beyond the minimum number of epochs.",
["histories","schedules","configurations"],
"for every validation cost history, criterion and limit, and across kills and restarts",
"bounded liveness and never-too-early over arbitrary cost histories; tests step the stoppers by hand along single paths",
["theanolm/training/stoppers.py",TR],
[("stopping criteria","theanolm/training/stoppers.py"),("epoch loop",TR+":Trainer.train")],
None,"point at which training returns, relative to the history of updates and validations")
p("C07","Validation happens on schedule and uses the median of its samples",
"The validation points divide the mini-batch updates of an epoch, which passes through the whole training data, evenly into as many parts as the validation frequency requests, the last point being the end of the epoch. The cost at a point is the median (or the configured statistic) of the validation perplexities after that update and the six preceding ones (or the configured number of samples), measured on the parameters of those updates. Samples are never carried over from before an annealing or a restart: a point that has too few samples is skipped.",
["histories","schedules","configurations"],
"for every number of updates per epoch, frequency and sample count that leave room for the samples, and across annealing and restarts",
"schedule arithmetic must be right for all epoch lengths and frequencies and after every rollback; tests try a few",
[TR],
[("schedule",TR+":Trainer._is_scheduled"),("sampling",TR+":Trainer._validate")],
None,"calls to the validation scorer and the validation costs reported afterwards")
p("C08","Same seed and inputs give the same model and the same output",
"Two runs of training with the same random seed, data and options produce identical parameters, histories and vocabularies in the model file, and two runs of text sampling with the same seed and model produce identical text; scoring, decoding and word class optimization of the same input twice give the same output. This does not depend on hash randomization, on clock behaviour, on the directory, file names or environment, on logging options, or on what ran before.",
["configurations","schedules","inputs"],
"for every seed and configuration, under perturbation of every source of nondeterminism not derived from the seed",
"a test in one process sees one hash seed, one clock and one environment",
["theanolm/commands/train.py","theanolm/commands/sample.py","theanolm/textsampler.py","theanolm/vocabulary/vocabulary.py",SH,"theanolm/network/weightfunctions.py","theanolm/network/network.py","theanolm/vocabulary/statistics.py"],
[("seeding","theanolm/commands/train.py:train, theanolm/commands/sample.py:sample"),("random streams","theanolm/network/network.py:Network.__init__")],
None,"model file content and output files of complete command runs")
p("C09","Incomplete or incompatible model files are refused, never used silently",
"A model file that is truncated, lacks any of the stored network or optimizer parameters or positions that the command needs (also because it was trained with another optimization method), or was trained with a different network architecture is refused with an error: no command trains, scores, decodes or samples with a mixture of stored and freshly initialized or differently interpreted values. The refused model file is left as it was. (A file with a vocabulary only is the start of a training; parts that older versions of the program did not write may be missing: validation history, unigram probabilities, number of words left, devices.)",
["fault_sequences","crash_points","inputs"],
"for every truncation point, every lost part of the stored state and every change of a functional architecture parameter",
"the set of possible losses is large and each must be refused by every consumer; tests check a few missing attributes",
["theanolm/network/architecture.py","theanolm/network/network.py","theanolm/backend/parameters.py",TR,SH,"theanolm/vocabulary/vocabulary.py","theanolm/training/basicoptimizer.py"],
[("architecture comparison","theanolm/network/architecture.py:Architecture.check_state"),("parameter restore","theanolm/backend/parameters.py:Parameters.set_state"),("vocabulary restore","theanolm/vocabulary/vocabulary.py:Vocabulary.from_state")],
None,"exit status, error and following updates or output of the command")
p("C10","What training saved is what every other command loads",
"After any sequence of saves, annealings, kills and restarts, a new process that reads the model file gets the very same model that was saved: words and their order, the shortlist, word classes, unigram and class membership probabilities, the architecture with the order of its inputs and layers, and every parameter. It therefore gives every text the same probability as the training process gave at the time of the save.",
["histories","configurations","inputs"],
"for every vocabulary (with and without classes, with out-of-shortlist words), architecture and save history",
"round trip over histories of repeated in-place saves and over many architectures and vocabularies; tests write and read once",
["theanolm/vocabulary/vocabulary.py","theanolm/vocabulary/wordclass.py","theanolm/network/architecture.py","theanolm/network/network.py","theanolm/backend/parameters.py"],
[("vocabulary state","theanolm/vocabulary/vocabulary.py:get_state, from_state"),("architecture state","theanolm/network/architecture.py:get_state, from_state"),("network reconstruction","theanolm/network/network.py:Network.from_file")],
None,"vocabulary tables, parameters and probabilities in the reading process")
p("C11","A command that could not write its output never reports success",
"If any byte of the output of scoring, decoding, sampling or word class optimization could not be written because of an I/O error or a full disk, the command ends with a non-zero exit status, also when the failure only happens while buffered output is written at the end. If it exits with status zero, the output file holds the complete output, including when writes were short or interrupted by signals.",
["fault_sequences","crash_points"],
"for every write at which the failure occurs, every output size relative to the buffers, plain and compressed output and standard output",
"tests do not inject failing writes, and the failing write usually happens outside the tested functions, at interpreter exit",
["theanolm/commands/score.py","theanolm/commands/decode.py","theanolm/commands/sample.py","wordclasses/wctool.py","theanolm/backend/filetypes.py","bin/theanolm"],
[("output files","theanolm/backend/filetypes.py:TextFileType"),("command ends","theanolm/commands/score.py:score; decode.py:decode; sample.py:sample; wordclasses/wctool.py:main")],
None,"exit status and output file content of the real commands")
p("C12","Lattice jobs together process every lattice exactly once",
"When the lattices are divided between any number of parallel jobs, the outputs of the jobs together contain every lattice exactly once, each with the result it gets when all lattices are decoded by one job. Results do not depend on the order in which lattices are decoded, on the lattices decoded before by the same process, or on jobs being killed and run again.",
["schedules","crash_points","configurations"],
"for every number of lattices and jobs, every order and interleaving of job executions, kills and reruns",
"partition and independence are over all job counts and orders; tests decode single lattices with one job",
["theanolm/scoring/latticebatch.py","theanolm/commands/decode.py","theanolm/scoring/latticedecoder.py"],
[("job slicing","theanolm/scoring/latticebatch.py:LatticeBatch"),("per-lattice decoding","theanolm/scoring/latticedecoder.py:LatticeDecoder.decode")],
None,"utterance ids and results in the outputs of all jobs")
p("C13","Word class optimization keeps exact statistics and a usable snapshot",
"After any sequence of word moves between classes, every word is in exactly one class and the class and class-pair counts equal those recomputed from the text and the current classes; the log likelihood change announced for a move equals the change of the recomputed log likelihood. Every word is moved to the class that improves the log likelihood most, if any does; optimization never decreases the log likelihood and ends when no move improves it. Snapshots are written the requested number of times per pass over the words; whenever the process is killed while it is not writing a snapshot, the output file holds exactly the last snapshot, complete, and optimization can be continued from it.",
["histories","crash_points","inputs"],
"for every corpus, number of classes, move history and kill point outside the writing of a snapshot",
"incremental statistics drift only after particular move sequences (self-bigrams, repeated moves, emptying a class); tests check a few moves",
["wordclasses/wctool.py","wordclasses/bigramoptimizer.py","wordclasses/numpybigramoptimizer.py","wordclasses/theanobigramoptimizer.py"],
[("incremental statistics","wordclasses/numpybigramoptimizer.py:_move"),("likelihood change","wordclasses/numpybigramoptimizer.py:_evaluate"),("snapshots","wordclasses/wctool.py:save")],
None,"counts and classes of the optimizer after each move, output file at kill points")
p("C14","Interrupted reads change nothing and failing reads are reported",
"Reading training text, vocabularies, scoring input and lattices gives the same result however the operating system splits the reads into short or interrupted ones. A read error, or a compressed file that ends early, makes the command fail with a non-zero exit status; it never continues as if the data ended there.",
["fault_sequences","inputs"],
"for every splitting of reads and every read at which an error or premature end occurs, in every input file of every command",
"tests read small files that arrive in one read and never fail",
["theanolm/backend/filetypes.py","theanolm/vocabulary/statistics.py","theanolm/parsing/linearbatchiterator.py","theanolm/parsing/scoringbatchiterator.py","theanolm/scoring/slflattice.py","theanolm/scoring/kaldilattice.py","theanolm/scoring/latticebatch.py"],
[("input files","theanolm/backend/filetypes.py:TextFileType"),("lattice input","theanolm/scoring/latticebatch.py")],
None,"exit status and output of the real commands under injected read faults")
p("C15","Scores do not depend on batching or on what was scored before",
"The probability of an utterance is the same whichever other utterances are in its mini-batch, in whatever order, number and length they come, and whatever was scored, decoded, sampled or trained before with the same objects, as long as the parameters are the same. Perplexity of a text is therefore the same for every batch size.",
["schedules","histories","inputs","configurations"],
"for every grouping and order of utterances into mini-batches and every interleaving of scoring with updates, restores and other requests, for every kind of layer",
"depends on leaks between sequences of a batch or between calls; tests score one batch once",
["theanolm/scoring/textscorer.py",BI,"theanolm/parsing/linearbatchiterator.py","theanolm/parsing/scoringbatchiterator.py","theanolm/network/lstmlayer.py","theanolm/network/grulayer.py","theanolm/network/bidirectionallayer.py","theanolm/network/network.py"],
[("batch scoring","theanolm/scoring/textscorer.py:score_batch, compute_perplexity"),("masking","theanolm/network/lstmlayer.py, grulayer.py, bidirectionallayer.py")],
None,"log probabilities returned for each utterance")
p("C16","Interleaved hypotheses keep their own recurrent state",
"While hypotheses of a network without bidirectional layers are extended word by word, in any grouping and any interleaving, every hypothesis gets for each word the probability that scoring its word sequence on its own would give, and extending one hypothesis never changes another that shares its history. The language model score of the best path that decoding reports is therefore the score of that word sequence.",
["schedules","histories","inputs"],
"for every interleaving and grouping of hypothesis extensions, every sharing of histories, and every pruning and recombination setting",
"state aliasing shows only under particular interleavings of extensions of hypotheses with common histories; tests extend single hypotheses",
["theanolm/scoring/latticedecoder.py","theanolm/network/recurrentstate.py","theanolm/network/network.py","theanolm/network/lstmlayer.py","theanolm/network/grulayer.py","theanolm/textsampler.py"],
[("token extension","theanolm/scoring/latticedecoder.py:LatticeDecoder._append_word, decode"),("state splitting and merging","theanolm/network/recurrentstate.py:RecurrentState")],
None,"scores of hypotheses and decoder results vs. sequential rescoring")

p("C17","Decoding returns the best paths of a lattice, best first",
"Whatever the numbering and times of the nodes and the order of the links in the file, and whatever was decoded or aborted before, decoding returns only paths of the lattice, each with its own acoustic, language model and total scores, ordered by total score. Without pruning, every word sequence of the lattice is returned once with the score of its best path (log-linear interpolation), so the first one is the best path. A limit on the hypotheses at a node keeps exactly the best ones, recombination keeps the best of the hypotheses with the same last words, and a beam removes only hypotheses that are worse than another by at least the beam. The rescored lattice of a deterministic lattice, written and read again, holds exactly the returned word sequences with their acoustic scores (more, if hypotheses were recombined).",
["inputs","schedules","histories"],"for every lattice, order of its nodes and links, options and earlier decodings","tests decode one lattice in one order",
["theanolm/scoring/latticedecoder.py","theanolm/scoring/rescoredlattice.py","theanolm/scoring/lattice.py","theanolm/scoring/slflattice.py","theanolm/scoring/kaldilattice.py"],
[("token passing, pruning and recombination","theanolm/scoring/latticedecoder.py:LatticeDecoder.decode"),("order of the nodes","theanolm/scoring/lattice.py:Lattice.sorted_nodes"),("rescored lattice","theanolm/scoring/rescoredlattice.py:RescoredLattice")])
p("C18","Scoring a text accounts for every word exactly once",
"The score command accounts for every word of the text exactly once. utterance-scores writes one score for each non-empty line, in the order of the text, and the score is the sum of the log probabilities of its predicted words. word-scores writes every predicted word of every sentence, in order, with its own log probability and its shortlist, out-of-shortlist or out-of-vocabulary mark. Merging subwords into words conserves the log probability: every subword belongs to exactly one word, and a word boundary belongs to the word that it ends, if any. The counts, the cross entropy and the perplexity that are reported follow from exactly these scores. All this holds however the text arrives (file, compressed file, standard input, in short or split reads), in one file or in parts, whatever the mini-batch boundaries and the base of the logarithm, and after kills and reruns over the same output file; words that are excluded or have zero probability do not disturb the scores of others, and sentences without any predicted word do not stop word-scores or perplexity.",
["inputs","fault_sequences","crash_points"],"for every text, split of it into reads, files and mini-batches, and every combination of the scoring options","the numbers are gathered from mini-batches, mergers and exclusions that interact only in unusual texts; tests score a few sentences in one batch",
["theanolm/commands/score.py","theanolm/scoring/textscorer.py","theanolm/parsing/scoringbatchiterator.py","theanolm/vocabulary/vocabulary.py"],
[("score command","theanolm/commands/score.py:_score_text, _score_utterances, _merge_subwords"),("batches","theanolm/parsing/scoringbatchiterator.py:ScoringBatchIterator"),("scores","theanolm/scoring/textscorer.py:TextScorer")],
None,"outputs of the real score command against the probabilities of the word sequences")
p("C19","Generated text follows the distribution of the model",
"sample writes exactly the requested number of sentences, each beginning with the start symbol and the given seed sequence and ending with the first end symbol or at the length limit. What follows the seed sequence is drawn from the probabilities that the model gives to the words after the beginning of the sentence (in proportion to them, if they do not sum to one): impossible words are never generated and the frequencies of words and word sequences agree with the probabilities. Sentences are independent of each other, within one generation and between generations, and of everything that was generated, aborted or scored before.",
["histories","schedules","inputs"],"for every model, seed sequence, number and length of sentences, and every history of earlier generations","an error shows only in frequencies or correlations over many sentences, in particular models (word classes, hierarchical softmax, recurrent layers, dropout); tests compare a few sampled words",
["theanolm/textsampler.py","theanolm/commands/sample.py","theanolm/vocabulary/wordclass.py","theanolm/vocabulary/vocabulary.py","theanolm/network/recurrentstate.py"],
[("generation","theanolm/textsampler.py:TextSampler.generate"),("words of classes","theanolm/vocabulary/wordclass.py:WordClass.sample"),("sample command","theanolm/commands/sample.py:sample")],
None,"generated sentences against the enumerated probabilities of all sentences")
p("C20","An update depends only on the words that it predicts",
"A mini-batch update of a network without dropout changes the parameters in the same way in whatever order the sequences are in the mini-batch, however much padding follows them, and whatever was scored, saved, restored or aborted before. It is the average over the words that are predicted: with sgd, the update by a mini-batch is the mean of the updates by its sequences alone, weighted by their numbers of predicted words, and changes the cost that scoring measures (with regularization terms) accordingly. Excluded words contribute nothing, and a mini-batch without any word to predict leaves all values finite. The weight of a training file scales the updates from it exactly like the learning rate. With sgd, no update exceeds the maximum norm times the learning rate and the weight. An update that is interrupted has either happened completely or not at all.",
["histories","schedules","inputs","configurations"],"for every composition, order and padding of mini-batches, every cost function, optimizer, architecture and history","depends on interactions of masks, exclusions, weights and padding that single fixed mini-batches do not show; tests perform updates of one batch without padding",
["theanolm/training/basicoptimizer.py","theanolm/training/cost.py","theanolm/training/*optimizer.py","theanolm/network/network.py","theanolm/network/samplingoutputlayer.py"],
[("update function","theanolm/training/basicoptimizer.py:BasicOptimizer.__init__, update_minibatch, _normalize"),("cost","theanolm/training/cost.py:Cost.get_tensor")],
None,"parameters and optimizer state after each update")
p("N01","Predicted word probabilities form a distribution",
"For every history the probabilities that the network gives to the words that may follow sum to one.",
["inputs","configurations"],"for every history and architecture","tests evaluate single inputs",
["theanolm/network/softmaxlayer.py","theanolm/network/hsoftmaxlayer.py","theanolm/network/network.py"],
[("output layers","theanolm/network/softmaxlayer.py, hsoftmaxlayer.py")])
p("N03","Lattice files are parsed and written faithfully",
"Reading a lattice file gives exactly the nodes, links, words and scores written in it, and writing a lattice and reading it again gives the same lattice.",
["inputs"],"for every well-formed lattice file","tests read one file",
["theanolm/scoring/slflattice.py","theanolm/scoring/kaldilattice.py","theanolm/scoring/rescoredlattice.py"],[("parsers and writers","theanolm/scoring/slflattice.py, kaldilattice.py, rescoredlattice.py")])
p("N04","Parameter updates follow the published optimization methods",
"Every optimizer changes the parameters by the amount its published definition gives for the gradient of the chosen cost.",
["inputs","configurations"],"for every cost, optimizer and input","tests run a few updates",
["theanolm/training/cost.py","theanolm/training/adamoptimizer.py"],[("update rules","theanolm/training/*optimizer.py:_get_param_updates")])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
