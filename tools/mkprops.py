"""Regenerates /verif/properties.jsonl (the source of truth for the statements)."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mechanism, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=list(files), mechanism=mechanism,
                               **({"state": [dict(name=n, meaning=m) for n, m in state]} if state else {}))))

prop("C01", "Crash durability of disk-backed replay",
     "After the process dies at any instant, reopening a disk-backed replay directory succeeds and yields, unaltered and in order, every item whose append had returned (the most recent up to the capacity), followed by at most the one item that was being appended; nothing that was never appended appears. The same holds again after any number of further appends, reopenings and crashes, for the plain queue, for the transition replay buffer and for the episodic replay buffer.",
     ["crash_points", "histories"],
     "every point at which the process can die (before, inside or after any file operation, including a half-done write), every history of appends, evictions, clean closes, reopenings and crashes, every capacity and chunk size",
     "The unit tests close cleanly and reopen once; they never cut a write short, never crash while the directory is being created or while a data file is rolled over, and never crash twice.",
     ["pfrl/collections/persistent_collections.py", "pfrl/replay_buffers/persistent.py"],
     "Append-only chunk files per rank: the record is written before its index entry, the index carries offset, length and CRC, the loader walks index entries newest to oldest; metadata file written on creation.",
     [("_ChunkWriter.offset", "where the next record goes"), ("meta.pkl", "rank and ancestor, read on reopening"), ("chunk.N.data/index", "records and their index")])

prop("C02", "Disk errors never corrupt stored replay data",
     "When storing an item in a disk-backed replay store fails with a disk error (no space, I/O error, possibly after part of the data reached the disk), the failure is reported to the caller, and every item whose append succeeded before or after the error is still there, unaltered and in order, when the directory is reopened. An item whose append failed may be present or absent after reopening, but is never altered and never displaces or hides another item.",
     ["fault_sequences", "histories"],
     "every placement of transient or persistent ENOSPC/EIO and short writes among the file operations of every history of appends, evictions, flushes, closes and reopenings",
     "No test injects a failing write; the CRC and index consistency after a partial write are never exercised.",
     ["pfrl/collections/persistent_collections.py", "pfrl/replay_buffers/persistent.py"],
     "Offsets recorded in the index must agree with what actually reached the data file after a failed or partial write.")

prop("C03", "Replay lineage: a run inherits its ancestors' most recent data",
     "A disk-backed replay store opened in a new directory with an ancestor holds exactly the most recent items of the whole lineage (its own, then its parent's, then its grandparent's and so on, up to capacity) in the order they were appended, also after it is closed or crashes and is reopened with the same arguments, whatever the ancestor did and whether the ancestor had been closed cleanly or had crashed. The files of an ancestor are never modified by a descendant.",
     ["histories", "crash_points", "configurations"],
     "every tree of runs, every number of items appended by each, every capacity (bounded or not) and chunk size, each run ended by close or crash at any point",
     "Tests build one two-generation lineage with one size; bounded capacities that cut inside a chunk, three generations and crashed ancestors are not reached.",
     ["pfrl/collections/persistent_collections.py", "pfrl/replay_buffers/persistent.py"],
     "The metadata file records rank and ancestor path; a new store is filled from the ancestors' chunk files newest first until the capacity is met.")

prop("C04", "Replay memory under interleaved environments",
     "Whatever way transitions of several environments are interleaved, every entry of the replay memory is a run of at most N consecutive transitions of one environment and one episode; each stored transition starts exactly one entry, which is N long unless its episode was cut or the terminal step came first, and entries appear in completion order with the oldest dropped beyond capacity. Sampling never removes or repeats an entry and returns only stored ones, saving then loading restores exactly the same contents, and a save cut short by a crash or disk error is never silently loaded as different contents.",
     ["histories", "crash_points"],
     "every interleaving of appends, terminal steps and episode cuts from any number of environments, with samples, saves and loads (each possibly torn) at any point, for every capacity and N",
     "Tests use fixed short interleavings of two environments; no test tears a save.",
     ["pfrl/replay_buffers/replay_buffer.py", "pfrl/collections/random_access_queue.py", "pfrl/replay_buffer.py"],
     "A per-environment window of the last N transitions, flushed on terminal steps and on episode cuts, feeding a bounded FIFO with random access.")

prop("C05", "Episodic replay keeps episodes whole",
     "Whatever the interleaving of environments, an in-memory episodic replay memory holds only whole episodes: each stored episode consists of all the transitions of one environment's episode, in order, and in the plain (not prioritised) one the transition view and the episode view always describe the same transitions. Beyond capacity the oldest whole episodes go first and the number of stored transitions is back within capacity as soon as an episode is stored; sampled sub-episodes are contiguous pieces of stored episodes no longer than requested; saving then loading restores the same contents.",
     ["histories", "schedules"],
     "every interleaving of transitions, terminal steps, cuts, samples and save/load from any number of environments, any capacity, plain and prioritised",
     "Tests append a handful of fixed episodes.",
     ["pfrl/replay_buffers/episodic.py", "pfrl/replay_buffers/prioritized_episodic.py", "pfrl/replay_buffer.py"],
     "Current episode per environment, moved on its end into an episode queue and a flat transition queue that are evicted together.")

prop("C06", "Prioritised replay tracks the right priority for each entry",
     "After any history of appends, samples and priority updates, each entry is drawn with probability proportional to its own latest priority (new entries have the largest priority so far), entries not yet updated after a sample are not lost for good, and importance weights equal (count x probability)^-beta normalised as configured. This also holds when entries are appended or evicted between taking a sample and reporting its errors, as happens when actors feed the memory while a learner is updating.",
     ["histories", "schedules"],
     "every interleaving of appends (with eviction), samples and error reports from actor and learner threads, every capacity, alpha, beta schedule, normalisation mode and error clipping",
     "Tests only run sample-then-update atomically; no test appends in between.",
     ["pfrl/collections/prioritized.py", "pfrl/replay_buffers/prioritized.py", "pfrl/agents/dqn.py"],
     "A sum tree and a min tree over a sliding index range; sampled leaves are zeroed until their priority is reported.")

prop("C07", "Training loop: exact step accounting, checkpoints, and save-on-failure",
     "Training for a given number of steps calls the environment exactly once per step, gives the agent each resulting reward, done and cut-off signal exactly once, starts a new episode exactly when the previous one ended or was cut, calls every hook once per step with the step number, has an agent that counts its steps begin at the step offset, and saves a checkpoint at each multiple of the checkpoint interval before the end and a final one at the end. If the environment, agent, a hook or an interrupt (Ctrl-C) raises at any point between the first action and the last step, the agent is saved under the number of completed steps and the same exception reaches the caller; no final save is made.",
     ["fault_sequences", "schedules", "configurations"],
     "every episode-end and cut-off schedule, every point at which env, agent, evaluator or hook raises or the user interrupts, every combination of steps, offset, episode limit, checkpoint interval",
     "Tests use one mocked episode pattern and one exception point.",
     ["pfrl/experiments/train_agent.py", "pfrl/experiments/hooks.py"],
     "Single loop with a step counter, episode-end logic and an exception handler that saves the agent.")

prop("C08", "Vectorised training: exact accounting across environments",
     "Vectorised training steps all environments in lockstep, delivers to the agent for every environment exactly the observation, reward, done and cut-off that environment produced, restarts exactly those environments whose episode ended or was cut, counts one step per environment per lockstep (beginning, for the agent too, at the step offset), runs hooks and checkpoints once for every step number, and stops at the first lockstep reaching the requested total. If anything raises at any point, the agent is saved under the completed step count, the environments are closed, and the same exception reaches the caller. (Training and evaluation environments are separate ones.)",
     ["fault_sequences", "schedules", "configurations"],
     "every per-environment schedule of episode ends and cut-offs, any number of environments, every point of failure or interrupt",
     "Tests use mocks with one fixed done pattern.",
     ["pfrl/experiments/train_agent_batch.py"],
     "Batch loop with per-environment episode lengths, reset masks and a global step counter.")

prop("C09", "Evaluation schedule, score log and best-agent tracking",
     "During training an evaluation happens at the first opportunity at which the step count has reached the next multiple of the evaluation interval, and never twice for the same interval; each one appends exactly one row to the score log, aligned with its header, whose statistics are those of the episodes actually run. The agent is saved as best exactly when its mean score exceeds every earlier one, training stops early exactly when the best mean reaches the success threshold, and after a crash or disk error at any point the rows already logged remain intact and readable. (A run has its output directory to itself.)",
     ["histories", "schedules", "fault_sequences"],
     "every sequence of evaluation opportunities, returns, step offsets and intervals, every failure point inside an evaluation, wall-clock jumps",
     "Tests check one interval against mocks.",
     ["pfrl/experiments/evaluator.py", "pfrl/experiments/train_agent.py", "pfrl/experiments/train_agent_batch.py", "pfrl/experiments/evaluation_hooks.py"],
     "Evaluator remembers the last interval start, appends tab-separated rows, compares with the running maximum.")

prop("C10", "Evaluation uses an unbiased set of episodes",
     "Evaluating for N episodes reports exactly the undiscounted returns and lengths of the first N episodes started, regardless of the order in which parallel environments finish; evaluating for N steps reports episodes in start order that fit the step budget, or the single unfinished one when none completes. The agent runs in evaluation mode throughout, sees every observation of its own environment only, is told at the end that every episode still running was cut so that the next one starts afresh, and is back in training mode afterwards even if an evaluation fails.",
     ["schedules", "configurations", "fault_sequences"],
     "every schedule of episode lengths over any number of parallel environments, episode limits, cut-offs, evaluation budgets, and failures",
     "Tests cover a few fixed length patterns with up to a few environments.",
     ["pfrl/experiments/evaluator.py"],
     "Episodes are numbered by start order; completed ones are kept until the prefix of episode numbers needed is complete.")

prop("C11", "Asynchronous training is exact under every interleaving",
     "Whatever the interleaving of worker processes, asynchronous training counts every environment step once, gives each step a distinct global number from 1 upward to the hooks, stops all workers once the requested number of steps or the success score is reached, saves the final agent exactly once, and always terminates. Each evaluation interval is evaluated at most once, the score log has its header first and once and one complete row per evaluation, the best-so-far score never decreases, and every environment made is closed.",
     ["schedules", "configurations"],
     "every interleaving of the worker processes at lock, counter, event and environment operations, every number of workers, every episode schedule",
     "Real processes interleave as the OS pleases and the existing asynchronous tests do not run to completion on this Python.",
     ["pfrl/experiments/train_agent_async.py", "pfrl/experiments/evaluator.py", "pfrl/utils/async_.py", "pfrl/utils/random_seed.py"],
     "Shared counters with locks, a stop event, a shared evaluator with header/eval-step/max-score under locks, process 0 saving.",
     [("counter", "global steps"), ("stop_event", "success reached")])

prop("C12", "Asynchronous training survives and reports worker failures",
     "If a worker process of asynchronous training raises or is killed outside a critical section, the remaining workers still finish the requested number of steps, the caller is warned about each abnormal exit with its process number and exit code, and the environments of workers that finish normally are closed. If the failing worker is the first one, the agent is saved under the current step count; if a failure is signalled from outside, the agent is saved and all workers are stopped.",
     ["fault_sequences", "schedules"],
     "every worker, every point of failure (exception in env, agent or hook; kill signal), every interleaving",
     "One test with a real exception in one worker; no kills and no control over the interleaving.",
     ["pfrl/experiments/train_agent_async.py", "pfrl/utils/async_.py"],
     "run_async joins the workers and inspects exit codes; the training loop saves in its exception handler.")

prop("C13", "Actor-learner training loses and duplicates nothing",
     "Whatever the interleaving of actor processes, poller and learner threads, every transition an actor observes reaches the replay memory exactly once, in that actor's order and tagged with its environment; the number of recorded steps equals the number observed, and once replay has started the learner performs exactly the requested number of updates, publishing its parameters to the actors and synchronising the target at the configured intervals. Saving, loading and statistics requested by an actor act on the learner's state, everything terminates when training ends, and a failure in the learner or in receiving an actor's data is signalled to the training loop, which saves the agent and ends, instead of hanging it. The replay memory is never modified by one thread while another is using it. (Transitions still in flight when the poller is stopped may be dropped.)",
     ["schedules", "fault_sequences"],
     "every interleaving of actors, poller and learner at message, lock and step granularity, every episode schedule, learner failure at any update",
     "The existing actor-learner tests cannot complete on this Python and real threads cannot be steered.",
     ["pfrl/agents/dqn.py", "pfrl/agents/state_q_function_actor.py", "pfrl/utils/stoppable_thread.py"],
     "Actors send commands over pipes to a poller thread which appends to the shared replay memory under a lock; a learner thread samples, updates and copies parameters into shared memory.")

prop("C14", "Parallel environments behave as the same environments run serially",
     "Stepping, resetting (fully or with a mask), seeding and querying a multi-process vector environment returns, under any scheduling of its worker processes, exactly what the same environments stepped one by one in order would return; the frame-stacking vector wrapper preserves this and never mixes frames of different environments or episodes, and observations once returned never change. Closing it ends every worker and closes every environment exactly once, also after interrupts, and an environment that fails is closed and never leaves the caller with another environment's data (how the failure reaches the caller is not promised).",
     ["schedules", "fault_sequences", "histories"],
     "every interleaving of the workers and the caller, every history of step/reset/mask/seed/close, environment failures and Ctrl-C at any point",
     "Tests compare a few steps of identical environments with whatever schedule the OS picks.",
     ["pfrl/envs/multiprocess_vector_env.py", "pfrl/envs/serial_vector_env.py", "pfrl/wrappers/vector_frame_stack.py"],
     "One pipe per worker; replies are collected in worker order; last observations remembered for masked resets.")

prop("C15", "Pretrained model fetching: complete or not at all",
     "Fetching a pretrained model returns a path whose files are complete and equal to what the server published, however many processes fetch at once and whatever downloads failed, were cut short or were killed before; a fetch that cannot do so raises and leaves nothing a later fetch would mistake for a complete model. A model already fetched is served from the local cache without a new download.",
     ["crash_points", "schedules", "fault_sequences"],
     "every interleaving of concurrent fetchers, every crash point, network failures and truncated transfers, disk errors",
     "The pretrained-model tests need a network and are not run; none covers concurrency or crashes.",
     ["pfrl/utils/pretrained_models.py"],
     "Per-file lock, download into a temporary directory, move into the cache, extraction of the archive.")

prop("C16", "Output directories never lose earlier results",
     "Preparing an output directory never deletes or alters results that are already there: either a fresh directory is created for this run, or, for a named experiment, the existing contents are copied to a backup before anything is overwritten and the start log only grows. This holds for any sequence of launches, clock readings, and crashes in the middle of a launch, and the arguments, environment and command of the latest launch are recorded.",
     ["histories", "crash_points"],
     "every history of launches with or without an experiment id, at arbitrary times, each possibly crashing at any file operation",
     "Tests prepare a directory once or twice with distinct real times.",
     ["pfrl/experiments/prepare_output_dir.py"],
     "Timestamped directories and timestamped backups.")

prop("C17", "Snapshots resume training as if it had not been interrupted",
     "Stopping a value-based training run (DQN and its variants) at any snapshot taken between episodes, losing the process, and resuming from the snapshot in a new process (whose agent is newly built or has already been used) continues exactly as the uninterrupted run would have, given the same environment and random draws: same parameters, target parameters, optimiser state, step and update counts, replay contents and subsequent actions and updates. Taking a snapshot changes nothing. A snapshot cut short by a crash is either rejected on loading or resumes a state that was actually saved, never a mixture passed off as complete.",
     ["crash_points", "histories"],
     "every step between episodes at which a snapshot is taken, every crash point or disk error inside the saving of a snapshot, every loss or truncation of one of its files, every episode schedule before and after, every value-based agent and replay buffer kind",
     "One test saves and loads a snapshot once and compares a few files.",
     ["pfrl/agents/dqn.py", "pfrl/agent.py", "pfrl/experiments/train_agent.py"],
     "Agent attributes saved one file per attribute, plus replay buffer and step counter.")

prop("C18", "Saved agents reload to the same behaviour",
     "For every agent type, saving at any point of training and loading into a newly built or already used agent, in another process, gives an agent whose evaluation actions and whose further training are those of the saved one as far as its parameters, target and average networks, normalisation statistics and optimiser state determine them. A save that hits a disk error says so. If any file of the saved directory is missing or cut short, loading raises instead of silently continuing with partly fresh state.",
     ["crash_points", "histories", "configurations"],
     "every agent type, every save point, every truncation or loss of every file of the checkpoint",
     "Tests compare a few attributes after one save/load and never damage a checkpoint.",
     ["pfrl/agent.py", "pfrl/agents"],
     "Each agent lists saved attributes; nested agents and modules are saved recursively, one file each.")

prop("C19", "Evaluation never leaks into training",
     "Interposing any number of evaluation episodes at any point of training, including in the middle of a training episode, leaves the training unchanged: parameters, replay contents, update count, recurrent state of the running training episodes, and the actions chosen afterwards are the same as without it, for every agent that has an evaluation mode and given the same random draws, even if an evaluation fails with an error half-way. In evaluation mode nothing is learned or stored (network running statistics and observation normalisers included), nothing is explored, and the actions depend on the networks and the evaluation episodes only, not on the training episodes under way.",
     ["schedules", "histories"],
     "every placement and length of evaluation phases within the training history of every agent type, serial and batched, feed-forward and recurrent",
     "Tests check that evaluation does not train for a few agents at one point.",
     ["pfrl/agent.py", "pfrl/agents"],
     "A training flag with a context manager; separate recurrent states for training and testing.")

prop("C20", "Agents learn from exactly what happened",
     "Whatever the schedule of episode ends and cut-offs over any number of parallel environments, the experience an agent learns from consists of exactly the transitions that occurred in training: consecutive observation, action taken, reward and next observation of the same environment and episode, marked terminal only for true terminations, none missing, repeated, or crossing an episode boundary. Every parameter update follows from exactly those transitions by the agent's documented rule and on its documented schedule (returns credited to the actions they follow, N-step returns discounted by their own length, values bootstrapped after a cut-off but not after a termination; A2C warns that it takes a cut-off for a termination, REINFORCE leaves cut episodes out). Each environment of a batch is acted on as if it were alone: recurrent agents start every episode of every environment from the initial recurrent state and keep the states of other environments untouched, in training and in evaluation.",
     ["schedules", "histories"],
     "every per-environment schedule of terminations and cut-offs, any number of environments, every agent type",
     "Tests check that learning works on average; a mis-attributed transition on one schedule is invisible.",
     ["pfrl/agents", "pfrl/utils/recurrent.py", "pfrl/replay_buffer.py"],
     "Per-environment last observation/action bookkeeping between act and observe, with resets by done or cut-off; segments and minibatches assembled from them.")

prop("C21", "Seeded runs are reproducible",
     "With the same seeds and the same schedule of events, two runs produce identical parameters, actions and scores, independently of wall-clock time, process ids and hash randomisation; in asynchronous training every worker gets its own seed, derived from its number or taken from the given list, and worker randomness does not depend on the other workers' timing.",
     ["schedules", "configurations"],
     "all clock readings, hash seeds, worker counts and interleavings",
     "Tests do not vary clock, hash seed or schedule.",
     ["pfrl/utils/random_seed.py", "pfrl/experiments/train_agent_async.py", "pfrl/utils/random.py"],
     "Global generators seeded per process.")

prop("C22", "Background statistics logging keeps every record in order",
     "With use_tensorboard, every evaluation recorded in the score log is also written to the event log exactly once, with the same step and values (mean, median, standard deviation, maximum, minimum, agent and environment statistics), in the order each worker recorded them and flushed, although in asynchronous training a background thread does the writing; nothing is lost when training ends by step count, success, an external stop or a failing worker, and nothing is written after training has returned.",
     ["schedules"],
     "every interleaving of the workers and the logging thread, including shutdown at any moment",
     "The TensorBoard writer is not installed in the test environment, so none of it runs.",
     ["pfrl/experiments/evaluator.py"],
     "Worker processes put records on a queue which a thread drains until it is told to stop.")

prop("C23", "Asynchronous workers learn as one",
     "In asynchronous training of A3C or ACER, whatever the interleaving of the workers, all of them share one set of parameters, optimiser statistics and (ACER) average model: every update a worker makes, computed from its own transitions and the parameters it acted with, is applied to the shared ones exactly once; right after its update the worker acts with the shared parameters and nothing else changes what it acts with; a failing worker takes nothing away from the others; and the agent returned to the caller holds the result of all updates. (Before its first update, a worker built by make_agent acts with its own initial parameters.)",
     ["schedules", "fault_sequences"],
     "every interleaving of workers, also in the middle of updates, and every point of failure of a worker",
     "Tests check that training succeeds on a toy problem, which it does with lost, doubled or unshared updates.",
     ["pfrl/experiments/train_agent_async.py", "pfrl/agents/a3c.py", "pfrl/agents/acer.py", "pfrl/utils/copy_param.py", "pfrl/optimizers/rmsprop_eps_inside_sqrt.py"],
     "Shared-memory tensors updated without locks by worker processes.")

prop("C24", "Wrapped environments stay faithful over any history",
     "Whatever stack of pfrl's environment wrappers (frame skipping, no-op and fire resets, life-as-episode, time limits, frame stacking, scaling, casting, clipping, random actions, normalised actions, rendering, Monitor, and the functions of env_modifiers) is put on an environment, and at whatever frame it terminates, asks for a reset, loses a life or fails: one outer step plays the given action for at most the documented number of frames and never past the end of the episode, pays exactly the rewards of those frames, passes on termination and cut-off, and shows frames of the current episode and the current state only; reset starts a new game exactly when the old one is over (or life-as-episode is not used), never returns an episode that is already over, and takes only the documented actions; Monitor records every episode once; random wrappers follow the environment's seed alone.",
     ["histories", "fault_sequences", "configurations"],
     "every stack of wrappers and every sequence of ends, life losses and errors at any frame, also within a frame skip or during a reset",
     "Tests run single wrappers on environments that end at convenient moments; the Atari reset wrappers are not run at all.",
     ["pfrl/wrappers", "pfrl/utils/env_modifiers.py"],
     "Each wrapper keeps its own counters, flags or buffers between calls.")

prop("C90", "Losses, distributions and network layers compute their formulas",
     "Action values, distributions, losses, advantage estimates, gradient clipping, exploration schedules and network layers compute their published formulas for all inputs.",
     ["inputs"],
     "all numeric inputs",
     "Tests sample a few inputs.",
     ["pfrl/action_value.py", "pfrl/distributions", "pfrl/nn", "pfrl/functions", "pfrl/explorers"],
     "Pure numeric functions of their input.")

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
