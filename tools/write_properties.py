#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = hook
    assert len(title) <= 80, title
    P.append(d)

# ---------------------------------------------------------------- nodes
p('N01', 'Node training life cycle is a faithful state machine',
  "For every sequence of train, stop-training, execute and inverse calls, a node accepts training data exactly while a training phase is open, closes exactly one phase per stop request, and executes or inverts only when no phase is left. A request to execute or invert first closes an open phase that has received data, and executing a node that was never trained trains it through all its phases on the given data; if phases remain after that the request is refused. "
  "A call the protocol forbids raises the documented training error and refused or failing training calls never contribute to the model that is finally learned, and a closing routine that raises leaves its phase open for another attempt. "
  "Each phase's training and closing routine runs exactly once per accepted request, in phase order.",
  ['histories'], 'all call sequences up to a depth, over nodes with 0..3 training phases, with valid and invalid arguments',
  'Tests call train/stop_training/execute in a handful of fixed orders; illegal orders and retries after a rejected call are sampled once or not at all.',
  ['mdp/signal_node.py', 'mdp/classifier_node.py'],
  [('phase flags and phase index checks', 'mdp/signal_node.py: Node.train/stop_training/_if_training_stop_training/_pre_execution_checks'),
   ('per-phase function table', 'mdp/signal_node.py: Node._get_train_seq/_train_seq')],
  state=[('_train_phase,_train_phase_started,_training', 'position in the training protocol', 'mdp/signal_node.py')],
  observe=['is_training()', 'get_current_train_phase()', 'get_remaining_train_phase()', 'return values and exceptions'])
p('N02', 'Node dimension and dtype contracts hold on every call',
  "Every successful execution returns one row per input row (except documented time-embedding nodes), exactly the declared number of output columns and the node's numerical type, and inversion likewise for the input side. "
  "Data of a wrong rank, a wrong width or an unsupported numerical type is rejected, and dimensions or numerical types that have been fixed can never be changed to a different value. "
  "No call ever modifies the arrays the caller passed in, and a node can be printed at any time.",
  ['histories', 'inputs', 'configurations'], 'all node classes that can be built offline x all input widths, row counts, numerical types and dimension-setting orders within small bounds',
  'The generic tests use one shape and three dtypes per node and never combine setter orders, repeated setting and rejected data.',
  ['mdp/signal_node.py', 'mdp/nodes/*.py', 'mdp/signal_node_online.py'],
  [('input/output/dtype checks before every call', 'mdp/signal_node.py: Node._check_input/_check_output/_refcast'),
   ('write-once properties', 'mdp/signal_node.py: set_input_dim/set_output_dim/set_dtype')],
  observe=['input_dim, output_dim, dtype', 'arrays returned', 'arrays passed in'])
p('N03', 'Training does not depend on how the data is split into chunks',
  "For batch-trained nodes whose algorithm is an accumulation over samples, feeding a data set in any split into consecutive chunks gives the same trained behaviour as feeding it at once, and equals the textbook definition computed from the whole data set. "
  "For slow-feature nodes the only difference between splits is the missing derivative across chunk borders, and overlapping chunks without last sample give exactly the unsplit result.",
  ['histories', 'inputs'], 'all compositions of data sets of up to 8 samples into chunks, all label arrangements from a small alphabet, per node class',
  'Tests train each node with one fixed chunking (usually a single chunk); uneven chunks, single-sample chunks and classes that appear late are not covered.',
  ['mdp/nodes/pca_nodes.py', 'mdp/nodes/sfa_nodes.py', 'mdp/nodes/fda_nodes.py', 'mdp/nodes/regression_nodes.py', 'mdp/nodes/classifier_nodes.py', 'mdp/nodes/misc_nodes.py', 'mdp/nodes/em_nodes.py', 'mdp/utils/covariance.py'],
  [('incremental accumulators', 'mdp/utils/covariance.py; _train methods of the nodes'),
   ('data accumulation', 'mdp/signal_node.py: VariadicCumulator/Cumulator')],
  observe=['execute() on probe data', 'public model attributes (d, v, avg, beta, means, tlen, eta)'])
p('N04', 'Execution is row-local; time-embedding nodes have exactly their window',
  "Executing a trained memory-less node on a batch equals concatenating its results over any split or selection of the rows. "
  "Time-embedding nodes return exactly the documented delayed copies for every number of frames, gap and signal length, the sliding-window variant fed row by row reproduces the batch variant, and the pseudo-inverse restores the signal whenever it is determined.",
  ['inputs', 'configurations'], 'all splits of probe batches for every executable node class; all (frames, gap, dim, length) tuples in a box',
  'Tests execute each node once on one batch and check time frames for two or three parameter tuples.',
  ['mdp/nodes/misc_nodes.py', 'mdp/nodes/expansion_nodes.py', 'mdp/nodes/recursive_expansion_nodes.py', 'mdp/signal_node.py'],
  [('vectorised execution', '_execute of each node'), ('frame index arithmetic', 'mdp/nodes/misc_nodes.py: TimeFramesNode/TimeDelayNode/TimeDelaySlidingWindowNode')],
  observe=['execute()', 'pseudo_inverse()'])
p('N05', 'Inverse undoes execution',
  "For every invertible node, chain of nodes or layered network and every training outcome, executing the inverse of an output reproduces that output, and where no information was discarded inverting an output reproduces the input. "
  "Objects report themselves as invertible exactly when all their parts are, and otherwise inversion is refused with the documented error and changes nothing. (The incremental CCIPCA and MCA nodes, whose components are orthonormal only in the limit, and the documented approximate inverse of iGSFA are not meant.)",
  ['inputs', 'configurations'], 'all invertible node classes x output dimensions x probe data; all flows and layers of up to 3 (some 4) parts from a node alphabet',
  'Tests invert a few nodes at one size; combinations with reduced dimensions, partial output width and layered structures are not enumerated.',
  ['mdp/signal_node.py', 'mdp/linear_flows.py', 'mdp/hinet/layer.py', 'mdp/hinet/flownode.py', 'mdp/hinet/switchboard.py', 'mdp/nodes/pca_nodes.py', 'mdp/nodes/sfa_nodes.py', 'mdp/nodes/ica_nodes.py'],
  [('per node inverse', '_inverse methods'), ('reverse traversal', 'Flow._inverse_seq, Layer._inverse, FlowNode._inverse')],
  observe=['inverse(execute(x))', 'execute(inverse(y))', 'is_invertible()'])
p('N06', 'Copies and saved objects are faithful and independent at every moment',
  "At any point of its life a node, flow or layered network can be copied, pickled or saved to and loaded from a file, and the duplicate then behaves exactly like the original for every continuation of calls. "
  "Afterwards neither training, executing nor editing one of them ever influences the other.",
  ['histories'], 'all positions in the training history of each container/node kind x duplication method x continuation applied to either side',
  'Tests copy freshly created or completely trained objects only.',
  ['mdp/signal_node.py', 'mdp/linear_flows.py', 'mdp/hinet/layer.py', 'mdp/hinet/flownode.py', 'bimdp/biflow.py', 'mdp/signal_node_online.py'],
  [('deep copy', 'Node.copy, Flow.copy, FlowNode.copy, Layer copy'), ('pickle based saving', 'Node.save, Flow.save')],
  observe=['execute() and training of original and duplicate'])
# ---------------------------------------------------------------- flows
p('N07', 'Graph-based SFA solves the training graph it was given',
  "Whatever training mode, parameters and sequence of training calls are used, a GSFA node extracts the decorrelated, unit-variance, zero-mean features of minimal weighted squared difference for exactly the training graph that the mode stands for (every weighted sample and every weighted edge, explicit dictionaries and arrays included), with the delta values it reports; several calls or modes unite their graphs. "
  "An iGSFA node outputs the scaled slow features that its threshold and size limit select, followed by the leading principal components of what they leave unexplained, and its linear inverse reconstructs exactly what these features keep.",
  ['inputs', 'configurations', 'histories'], 'all weighted graphs on 3-4 samples (5 thorough), all training modes x data lengths 4-9 (12) x block and window sizes, all pairs (triples) of calls and of modes; all iGSFA parameter combinations in a box',
  'Tests compare two modes with each other on one random data set and never compare a mode with its graph.',
  ['mdp/nodes/gsfa_nodes.py'], [('accumulation of samples and differences', 'mdp/nodes/gsfa_nodes.py: CovDCovMatrix'), ('mode parsing', 'GSFANode._train'), ('slow/fast composition', 'iGSFANode')],
  observe=['execute()', 'inverse()', 'd'])
p('F01', 'Training a flow equals training its nodes one after another',
  "Training a chain of nodes gives every node exactly the data, extra arguments and phases it would receive if trained by hand on the output of the already trained earlier nodes: every chunk once per phase, in order, only to nodes that still need training. "
  "This holds for every mix of untrainable, trained, multi-phase and supervised nodes and for every supported form of training data (array, list of chunks, list of argument tuples, re-iterable object, one-shot iterator where one pass suffices); unusable data forms are rejected with a flow error. "
  "Executing or inverting a chain equals composing the nodes, for arrays and iterables and for every truncation point.",
  ['configurations', 'inputs', 'histories'], 'all flows of up to 3-4 nodes over an alphabet of node kinds x data forms x chunkings x execute truncations',
  'Tests use two or three fixed flows with identical nodes; they do not record which data each phase of each node received.',
  ['mdp/linear_flows.py'],
  [('node-by-node training loop', 'mdp/linear_flows.py: Flow._train_node, Flow.train, _train_check_iterables'), ('execution loop', 'Flow._execute_seq/_inverse_seq/iter_execute')],
  observe=['per-node log of received chunks', 'execute()', 'inverse()', 'exceptions'])
p('F02', 'Editing a flow is list-like and all-or-nothing',
  "Every sequence of append, insert, extend, pop, index and slice assignment, deletion, concatenation and in-place concatenation leaves a flow holding exactly the nodes a plain list would hold. "
  "An edit that would join nodes with different dimensions, or insert something that is not a node, is refused with an error and leaves the flow exactly as it was; slices and sums are new flows that share nodes but not the sequence, and an accepted flow is always dimensionally consistent.",
  ['histories'], 'all edit sequences up to depth 3-4 over nodes of several dimensions, on flows of 0..4 nodes; for batch, online and circular flows',
  'Tests try each list method once and one failing edit.',
  ['mdp/linear_flows.py', 'mdp/linear_flows_online.py', 'bimdp/biflow.py'],
  [('consistency check before mutation', 'mdp/linear_flows.py: Flow.__setitem__/__delitem__/__add__/__iadd__/append/extend/insert/pop')],
  observe=['list(flow)', 'exceptions', 'execute()'])
p('F03', 'A failure while training or running a flow is reported and recoverable',
  "Whenever any node fails at any phase and chunk, the error that reaches the caller names the failing node and its cause, nodes trained before keep their state, and no later node has been touched. "
  "With crash recovery enabled a file is written from which the flow can be loaded in the state of the failure, and training can be resumed after the failure cause is gone: finished nodes are not trained again and the failing node continues in the phase that was open. "
  "Checkpoint functions are called exactly once per node, right after that node's training ended, and their results stay available on the flow.",
  ['fault_sequences', 'crash_points', 'configurations'], 'all single faults (node, phase, chunk, operation) in flows of up to 3 nodes; all placements of checkpoint functions',
  'Tests inject one exception in one node.',
  ['mdp/linear_flows.py', 'bimdp/biflow.py'],
  [('exception wrapping and crash dump', 'mdp/linear_flows.py: Flow._propagate_exception'), ('checkpoint calls', 'CheckpointFlow._train_check_checkpoints/train')],
  observe=['exception text', 'crash dump', 'flow state', 'checkpoint call log'])
# ---------------------------------------------------------------- schedulers
p('S01', 'Thread-based scheduling is correct under every interleaving',
  "Under every interleaving of the caller and the worker threads, each submitted task is executed exactly once with the callable that was current when it was submitted, and collecting results returns all of them in submission order. "
  "No interleaving deadlocks, loses or duplicates a task, exceeds the configured number of simultaneously running tasks, or breaks a following round of tasks or the shutdown; a task that raises does not block the collection of results but is reported by it.",
  ['schedules', 'histories', 'fault_sequences'], 'all interleavings with a bounded number of preemptions at statement granularity, of 1-3 workers and up to 4 tasks, callable switches and failing tasks',
  'Tests run a few tasks with one thread timing; interleavings are left to chance.',
  ['mdp/parallel/thread_schedule.py', 'mdp/parallel/scheduling.py'],
  [('lock around scheduler state', 'mdp/parallel/scheduling.py: Scheduler._lock'), ('thread limit', 'mdp/parallel/thread_schedule.py: ThreadScheduler._process_task')],
  state=[('_n_open_tasks,_n_active_threads', 'tasks in flight', 'mdp/parallel/*.py')],
  observe=['results', 'task execution log'], hook=None)
p('S02', 'Process-based scheduling is correct under every interleaving',
  "Under every interleaving of the caller and the worker-communication threads, each submitted task is executed exactly once by a worker process, with the callable that was current when it was submitted even when callables are cached in workers, and results come back in submission order. "
  "No interleaving deadlocks, loses or mixes up tasks, uses one worker for two tasks at the same time, or makes shutdown fail after results were collected; a failing worker is reported instead of blocking forever.",
  ['schedules', 'histories', 'fault_sequences'], 'all interleavings with bounded preemptions of caller and communication threads for 1-2 worker processes, up to 4 tasks, cached and switched callables, worker failures',
  'Tests start real processes once per test with one timing.',
  ['mdp/parallel/process_schedule.py', 'mdp/parallel/process_schedule.py', 'mdp/parallel/scheduling.py'],
  [('free process list and callable cache tags', 'mdp/parallel/process_schedule.py: ProcessScheduler._process_task/_task_thread')],
  observe=['results', 'per worker message log'])
p('S03', 'Every scheduler honours the task/callable/result contract',
  "For every sequence of setting callables, adding tasks, collecting results, failing tasks and shutting down, the results collected are exactly those of the tasks added since the last collection, each computed by the callable given with the task or else the one last set, in order of submission for ordered collection. "
  "Collecting with nothing pending returns an empty result, a task without any callable is refused without disturbing the scheduler, and the scheduler stays usable after every refused or failed task.",
  ['histories', 'fault_sequences'], 'all call sequences up to depth 5-6 for the serial, thread and process schedulers and the three result containers',
  'Tests use one callable and one collection per scheduler.',
  ['mdp/parallel/scheduling.py', 'mdp/parallel/thread_schedule.py', 'mdp/parallel/process_schedule.py'],
  [('task bookkeeping', 'mdp/parallel/scheduling.py: Scheduler.add_task/get_results/_store_result'), ('result containers', 'ListResultContainer/OrderedResultContainer/TrainResultContainer')],
  observe=['results', 'n_open_tasks', 'exceptions'])
# ---------------------------------------------------------------- parallel
p('P01', 'Parallel flows compute what serial flows compute, in any completion order',
  "For every flow, chunking of the data and order in which the scheduled tasks complete, training and executing a parallel flow gives the same node states and the same outputs, chunk order included, as the ordinary flow. "
  "The flow passes through the task protocol (training tasks per node and phase, then results, then next phase) with every chunk used exactly once per phase, refuses calls that do not fit the current step, and is usable again after a failed round.",
  ['schedules', 'configurations', 'histories'], 'all completion orders of the tasks of one phase (up to 5 chunks) x flows of up to 3 node kinds x chunkings x scheduler kinds',
  'Tests use one deterministic scheduler order and compare two flows.',
  ['mdp/parallel/parallelflows.py', 'mdp/parallel/parallelnodes.py', 'bimdp/parallel/parallelbiflow.py'],
  [('task iteration and result joining', 'mdp/parallel/parallelflows.py: ParallelFlow.get_task/use_results/_create_train_task')],
  observe=['execute()', 'node attributes', 'task log'])
p('P02', 'Forking and joining nodes equals direct training',
  "Splitting the training of one phase over any number of forked nodes and joining them back in order gives the same trained node as training the original directly, for every node that declares itself parallelisable, in every phase and also inside layers and flow nodes. "
  "Forking never changes the original, and nodes that cannot be forked refuse it with the documented error so that training falls back to local execution.",
  ['configurations', 'inputs', 'schedules'], 'all distributions of up to 5 chunks over 1-3 forks, for every parallelisable node and every layered combination of up to 2 of them',
  'Tests fork each node twice with one split.',
  ['mdp/parallel/parallelnodes.py', 'mdp/parallel/parallelclassifiers.py', 'mdp/parallel/parallelhinet.py', 'bimdp/parallel/parallelbihinet.py'],
  [('fork/join pairs', '_fork/_join of the parallel extension nodes')],
  observe=['execute()', 'public model attributes'])
# ---------------------------------------------------------------- extensions
p('E01', 'Activating and deactivating extensions is exactly reversible',
  "After any sequence of extension activations and deactivations, nested contexts and decorated calls, also with failing setups and conflicting extensions, every node class offers exactly the methods and attributes of its original definition overlaid with those of the currently active extensions. "
  "Deactivating everything restores all classes to their original behaviour, an activation that is refused leaves no trace of itself, and the list of active extensions always tells the truth.",
  ['histories', 'fault_sequences'], 'all operation sequences up to depth 5-6 over 3-4 extensions on a class hierarchy, with overlapping methods, setup/teardown functions that fail, and context/decorator use with exceptions',
  'Tests check single activations and one conflict.',
  ['mdp/extension.py'],
  [('attribute swapping with saved originals', 'mdp/extension.py: activate_extension/deactivate_extension'), ('context manager and decorator', 'mdp/extension.py: extension/with_extension')],
  observe=['results of calling methods on nodes', 'class attributes', 'get_active_extensions()'])
p('E02', 'Cached execution is indistinguishable from uncached execution',
  "With result caching active, for every history of executions, training, cache directory switches, and selections of nodes by class or instance, every execution returns what it would return without caching. "
  "The underlying computation is repeated only when node state or input has changed or the node is not selected for caching; switching caching off restores plain execution.",
  ['histories'], 'all operation sequences up to depth 4-5 over 2 nodes, 2 inputs, 2 cache directories, retraining and selections',
  'Tests check one hit and one miss.',
  ['mdp/caching/caching_extension.py'],
  [('memory lookup per instance', 'mdp/caching/caching_extension.py: CacheExecuteExtensionNode.execute, cache context manager')],
  observe=['execute() results', 'execution counters'])
# ---------------------------------------------------------------- hinet
p('H01', 'A layer behaves like its nodes side by side; a flow node like its flow',
  "Training, executing and inverting a layer equals doing so for each inner node on its own slice of the channels (the same node on all slices for a cloned layer, all nodes on the whole input for a shared-input layer), for every combination of inner nodes with different dimensions, phases and pre-trained parts. "
  "A flow wrapped as a node equals the flow itself, with as many training phases as its trainable nodes need, in every nesting.",
  ['configurations', 'histories'], 'all layers/flow nodes of up to 3 inner nodes over an alphabet of node kinds, nesting depth 2, all protocol positions',
  'Tests use identical inner nodes and one nesting.',
  ['mdp/hinet/layer.py', 'mdp/hinet/flownode.py', 'mdp/hinet/layer_online.py', 'mdp/hinet/flownode_online.py', 'bimdp/hinet/bilayer.py', 'bimdp/hinet/biflownode.py'],
  [('slice arithmetic', 'mdp/hinet/layer.py: Layer._execute/_train/_inverse'), ('phase list', 'mdp/hinet/flownode.py: FlowNode._get_train_seq')],
  observe=['execute()', 'inverse()', 'training phase counters', 'inner node state'])
p('H02', 'Switchboards route exactly the documented connections',
  "For every geometry the two-dimensional switchboards connect each output channel to exactly the input channels its field covers (rectangular, doubled and rhombic fields with their spacings), report the matching output geometry, and reject or mark unused channels exactly as documented. "
  "Executing copies the selected values in connection order, inversion restores the input when each input is connected once and averages or refuses otherwise, and restricting to part of the output keeps the routing.",
  ['configurations'], 'all switchboard parameter tuples in a box (sizes up to 6x6, fields, spacings, channel dims, ignore/cover options) and all connection lists over up to 4 inputs and 4 outputs',
  'Tests check a few geometries by hand.',
  ['mdp/hinet/switchboard.py', 'mdp/hinet/switchboard_factory.py', 'bimdp/hinet/biswitchboard.py'],
  [('connection construction', 'mdp/hinet/switchboard.py: Rectangular2dSwitchboard/DoubleRect2dSwitchboard/DoubleRhomb2dSwitchboard'), ('parameter derivation', 'mdp/hinet/switchboard_factory.py')],
  observe=['connections', 'execute()', 'inverse()', 'channel queries'])
# ---------------------------------------------------------------- bimdp
p('B01', 'Bidirectional flows with ordinary nodes equal ordinary flows',
  "A bidirectional flow, layer or flow node that contains only ordinary nodes, or bidirectional nodes that send no messages, trains, executes and inverts exactly like its ordinary counterpart, for every form of input data. "
  "Tracing or inspecting a run does not change any result and leaves no trace after it ended.",
  ['configurations', 'inputs'], 'all flows of up to 3 nodes over ordinary, bidirectional and mixed node kinds x data forms; with and without tracing',
  'Tests compare one or two flows.',
  ['bimdp/biflow.py', 'bimdp/binode.py', 'bimdp/hinet/*.py', 'bimdp/inspection/tracer.py'],
  [('normalised node results', 'bimdp/biflow.py: BiFlow._execute_seq/_train_node'), ('tracing decorators', 'bimdp/inspection/tracer.py: InspectionHTMLTracer')],
  observe=['execute()', 'train()', 'inverse()'])
p('B02', 'Messages and jump targets are followed exactly',
  "For every routing of messages and jump targets (relative, absolute by name, forward, backward, exit), a bidirectional flow visits exactly the nodes the targets prescribe, each with the data and merged message left by its predecessor, and ends with the documented output, message and target. "
  "Messages addressed to a node reach only that node and are taken out of the message there, arguments named in a message are delivered to the matching parameters, results of several data chunks are combined by the documented rules, and the message passed by the caller is not altered.",
  ['configurations', 'programs', 'inputs'], 'all scripted routings over up to 3 nodes with up to 2 jumps, all message key forms, all message value types for combining',
  'Tests follow two scripted examples.',
  ['bimdp/biflow.py', 'bimdp/binode.py'],
  [('target resolution', 'bimdp/biflow.py: BiFlow._target_to_index/_execute_seq'), ('message parsing', 'bimdp/binode.py: BiNode._extract_message_key/_extract_method_key'), ('combination', 'bimdp/biflow.py: MessageResultContainer')],
  observe=['visit log', 'returned (y, msg, target)'])
p('B03', 'Bidirectional training, stop messages and resets follow the protocol',
  "During training of a bidirectional flow every node receives its data and messages through the same routing as in execution, stop messages are delivered after the phase of the node that sent them and before the next phase, and all nodes are reset between independent runs so that no message or suspended computation leaks from one run to the next. "
  "Suspended (coroutine-style) node methods resume exactly where they yielded and finish after their declared number of steps, whatever else runs in between.",
  ['histories', 'programs'], 'all scripted training programs of up to 3 nodes and 2 phases, chunk counts 1-3, failure positions; all call sequences on coroutine nodes up to depth 5',
  'Tests run two coroutine examples and one backpropagation-like training.',
  ['bimdp/biflow.py', 'bimdp/binode.py', 'bimdp/nodes/*.py'],
  [('stop message handling', 'bimdp/biflow.py: BiFlow._train_node/_stop_training hooks'), ('coroutine wrapper', 'bimdp/binode.py: binode_coroutine'), ('reset', 'BiNode.bi_reset/_bi_reset')],
  observe=['event log of node calls'])
p('B04', 'Clone bi-layers give every clone its part of the data and messages',
  "A bidirectional clone layer gives every clone its part of the data, the part of every message array that can be split evenly and all other message entries unchanged, and joins the clones' data and message arrays in the same way, for every answer form and in training, closing and execution. "
  "Switching between one shared instance and independent copies, through the attribute or through an incoming or outgoing message, plain or with the id of the layer, happens at that moment, keeps the state of the nodes, and is refused without any effect where training data would be lost; resets reach every clone.",
  ['histories', 'configurations'], 'layers of 1-3 clones, all messages of up to 2-3 entries of 18 kinds x 9 answer forms; all sequences of training, closing, execution, reset and switching up to depth 3-4',
  'Tests check one message and two switches.',
  ['bimdp/hinet/bilayer.py'], [('split and join', 'bimdp/hinet/bilayer.py: CloneBiLayer._get_split_messages/_get_combined_message'), ('switching', 'bimdp/hinet/bilayer.py: CloneBiLayer._set_use_copies/_extract_message_copy_flag')],
  observe=['calls received by the clones', 'results', 'use_copies', 'node states'])
p('D01', 'Gradients of bidirectional networks are the exact derivatives of the network',
  "With the gradient extension active, executing any bidirectional network of differentiable parts - chains, layers of different or cloned nodes, switchboards and nested flows - with the gradient method gives the ordinary result and, for every sample, the Jacobian of the whole network, continued from a given incoming gradient. "
  "Without the extension, on a node which is still in training, or on a node without a gradient, it is refused.",
  ['configurations', 'inputs'], 'all chains of up to 3 parts over 12-13 kinds of parts, all layers of up to 3 nodes, all switchboards with up to 3 outputs of 3 inputs, with and without an incoming gradient',
  'Tests compare a handful of networks.',
  ['bimdp/nodes/gradient.py', 'bimdp/hinet/bilayer.py', 'bimdp/hinet/biflownode.py'], [('chain rule', 'bimdp/nodes/gradient.py: GradientExtensionNode._gradient'), ('layers', 'bimdp/nodes/gradient.py: GradientLayer, GradientCloneLayer')],
  observe=['data result', "message entry 'grad'", 'exception types'])
# ---------------------------------------------------------------- online
p('O01', 'Online nodes count and deliver every sample exactly once',
  "An online node stays trainable and executable at any time until it is closed, its iteration counter equals the number of samples trained so far, and incremental-mode training on any chunking equals sample-by-sample training with the same random source. "
  "Online averages, differences and principal components equal their defining recurrences on every stream.",
  ['histories', 'inputs'], 'all call sequences up to depth 5 on online nodes; all chunkings of streams of up to 6 samples',
  'Tests train with one chunking and check convergence statistically.',
  ['mdp/signal_node_online.py', 'mdp/nodes/stats_nodes_online.py', 'mdp/nodes/pca_nodes_online.py', 'mdp/nodes/mca_nodes_online.py', 'mdp/nodes/sfa_nodes_online.py'],
  [('per-sample loop and counter', 'mdp/signal_node_online.py: OnlineNode.train/_train_if_necessary')],
  observe=['get_current_train_iteration()', 'execute()', 'parameters'])
p('O02', 'Online flows feed every sample through the chain in order',
  "Training an online flow passes each chunk, in order, through all nodes so that every online node trains on the output its predecessors give at that moment, and leaves the same state as doing this by hand; online layers and flow nodes behave the same way. "
  "A circular flow additionally feeds the output of its last node back as the input of its first one for the configured number of iterations, entering at its configured input node and reading out at its configured output node, and stores the fed-back value for the next call.",
  ['configurations', 'histories'], 'all online flows of up to 3 nodes over an alphabet of online, pre-trained and untrainable nodes x data forms; all circular configurations (iterations, input node, output node)',
  'Tests use one three-node flow and one circular configuration.',
  ['mdp/linear_flows_online.py', 'mdp/hinet/layer_online.py', 'mdp/hinet/flownode_online.py'],
  [('interleaved train/execute', 'mdp/linear_flows_online.py: OnlineFlow.train/_train_node'), ('feedback', 'CircularOnlineFlow.train/_execute_seq')],
  observe=['per-node training log', 'execute()', 'stored input'])
# ---------------------------------------------------------------- utilities / algorithms
p('G01', 'Graph operations keep the graph consistent',
  "For every directed multigraph built and edited through the public operations, nodes, edges, degrees, neighbours and edge queries agree with each other, and removing nodes and edges leaves nothing dangling. "
  "Topological sorting returns a valid order of every acyclic graph and detects every cycle, searches visit exactly the reachable nodes once, and connected components form the true partition.",
  ['inputs', 'histories'], 'all directed graphs with up to 4 nodes and all edit sequences up to depth 5',
  'Tests use a handful of example graphs.',
  ['mdp/graph/graph.py'], [('adjacency bookkeeping', 'mdp/graph/graph.py: Graph/GraphNode/GraphEdge')],
  observe=['public query methods'])
p('C01', 'Covariance estimators equal their definition for every update history',
  "For every sequence of update calls, the covariance, delayed, cross and variable-time-step estimators return exactly the mean and (un)biased, (un)centred second moments of all data seen since the last read-out, with the data count, and start afresh afterwards. "
  "Collections of matrices are rotated, permuted, weighted, symmetrised and transformed as the equivalent single-matrix operations.",
  ['inputs', 'histories'], 'all chunkings and read-out positions of integer streams up to 6 samples, delays 0-3, flags, all small integer data sets',
  'Tests compare one chunking with a reference value.',
  ['mdp/utils/covariance.py', 'mdp/utils/routines.py'], [('running sums and read-out', 'mdp/utils/covariance.py')],
  observe=['fix() results'])
p('C02', 'Classifiers are consistent with their training data',
  "For every labelled training set, and whatever the order, chunking and container type of the labels, each classifier gives the labels, probabilities and rankings defined by its rule; probabilities sum to one, the ranking orders labels by probability, and the label is the most probable one. "
  "The execution mode of a classifier (pass-through, label, rank, probability) selects exactly the corresponding result.",
  ['inputs', 'configurations'], 'all labelled data sets with up to 5 one- or two-dimensional integer points and 2-3 labels, all label container types',
  'Tests use one training set per classifier.',
  ['mdp/classifier_node.py', 'mdp/nodes/classifier_nodes.py', 'bimdp/nodes/*.py'], [('label/prob/rank methods', 'mdp/classifier_node.py; mdp/nodes/classifier_nodes.py')],
  observe=['label()', 'prob()', 'rank()', 'execute()'])
p('X01', 'Expansion and analysis nodes equal their formulas',
  "Polynomial, recursive, radial and general expansions produce exactly the documented terms, each once and in a fixed order, with the declared output width for every input width and degree. "
  "Cut-off, histogram, hit-parade and temporal-variation nodes report exactly what their definition gives for the whole training signal, for every signal over a small value alphabet.",
  ['inputs', 'configurations'], 'all (degree, dim) pairs in a box with symbolic-like probe data; all signals up to length 6-7 over 3 values, all parameters in a box',
  'Tests use one degree table and random signals.',
  ['mdp/nodes/expansion_nodes.py', 'mdp/nodes/recursive_expansion_nodes.py', 'mdp/nodes/misc_nodes.py'], [('expansion index arithmetic', 'mdp/nodes/expansion_nodes.py: PolynomialExpansionNode._execute'), ('local extremum tracking', 'mdp/nodes/misc_nodes.py: OneDimensionalHitParade.update')],
  observe=['execute()', 'get_maxima/get_minima', 'get_eta', 'bounds'])
p('R01', 'RBM nodes follow the Boltzmann distribution',
  "For every restricted Boltzmann machine, with and without label units, the energy equals its formula, and the probabilities of hidden, visible and label units equal the conditionals of the Boltzmann distribution of that energy; samples are zeros and ones of the node's dtype drawn with these probabilities. "
  "Each training call performs one contrastive divergence update with the given rate, decay, momentum and number of Gibbs steps from the current parameters, without changing its data; training and sampling are refused for data of the wrong width and training is refused after the node is closed.",
  ['inputs', 'histories'], 'all machines of up to 5 units with parameters over small value sets, all states; all binary data sets of up to 4 rows in up to 2 training calls, all Gibbs samples a call can draw',
  'Tests check one machine for each formula and train with one statistical criterion.',
  ['mdp/nodes/rbm_nodes.py'], [('conditionals and energy', 'mdp/nodes/rbm_nodes.py: RBMNode._sample_h/_sample_v/_energy, RBMWithLabelsNode._sample_v'), ('contrastive divergence', 'mdp/nodes/rbm_nodes.py: RBMNode._train, RBMWithLabelsNode._train')],
  observe=['sample_h()', 'sample_v()', 'energy()', 'execute()', 'w, bv, bh'])
p('U01', 'Eigenvalue solvers solve the problem they are given',
  "For every symmetric A and symmetric positive definite B, utils.symeig (and mdp.utils.get_symeig's choice) gives the eigenvalues of A z = w B z in ascending order within the requested range and eigenvectors that are B-orthonormal and diagonalise A, for both dtypes, without changing its arguments unless allowed; ranges outside the problem and problems that are not positive definite or not solvable are refused with SymeigException. "
  "The rank deficit methods (pca, svd, ldl, reg) solve the problem on the range of a positive semidefinite B: all and only the directions with variance are kept, and the reported rank deficit is the number of the others; B without any variance is refused.",
  ['inputs', 'configurations'], 'all symmetric matrices of dimension up to 4 with entries from small value sets, all second-moment matrices of small data sets of every rank, all index ranges',
  'Tests solve random full-rank problems and one deficient problem per method.',
  ['mdp/utils/routines.py', 'mdp/utils/symeig_semidefinite.py', 'mdp/utils/_symeig.py'], [('plain solver', 'mdp/utils/_symeig.py: wrap_eigh; mdp/utils/routines.py: _symeig_fake'), ('deficient problems', 'mdp/utils/symeig_semidefinite.py: symeig_semidefinite_pca/_svd/_ldl/_reg')],
  observe=['symeig()', 'symeig_semidefinite_*()', 'rank_deficit'])
p('U02', 'Numerical helpers compute what they are documented to compute',
  "For every quadratic form 0.5 x'Hx + f'x + c, apply gives its value, get_extrema the vectors of the given norm where it is largest and smallest on the sphere, and get_invariances the directions and curvatures around them. "
  "The numerical helpers (rotations, permutations, random rotations and symmetric matrices, products, norms, matrix roots, covariance maxima, array repetition, time differences, weighted choices, gabor filters and the like) agree with their definitions for every argument, do not change what they are given unless documented, and progressinfo hands on every item unchanged while its percentages grow to 100.",
  ['inputs'], 'all forms of dimension up to 3 with small integer coefficients, all small matrices, vectors, shapes, weights and indices; all loops of up to 5 items with every layout',
  'Tests check one or two arguments of some of these functions.',
  ['mdp/utils/quad_forms.py', 'mdp/utils/routines.py', 'mdp/utils/progress_bar.py'], [('quadratic forms', 'mdp/utils/quad_forms.py: QuadraticForm'), ('helpers', 'mdp/utils/routines.py'), ('progress', 'mdp/utils/progress_bar.py: progressinfo')],
  observe=['QuadraticForm.apply/get_extrema/get_invariances', 'utils functions', 'progressinfo'])
p('L01', 'Linear analysis nodes solve their defining problem',
  "For every data set in any chunking, PCA, whitening and NIPALS nodes find orthonormal eigenvectors of the covariance with descending variances, keep the number of components their options ask for, report the explained variance, and project, back-project and invert accordingly; SFA and SFA2 find uncorrelated unit-variance features whose derivatives have the smallest variances, on the range of the data when it is degenerate and a rank deficit method is chosen, with delta, eta values and quadratic forms to match; FDA finds unit-variance projections minimising the variance within the classes; linear regression finds the (smallest) least-squares solution. "
  "Problems without a solution are refused with a NodeException; results are finite otherwise.",
  ['inputs', 'configurations'], 'all data sets of up to 7 samples and 3 variables over small integers, all labellings into up to 3 classes, every combination of the node options',
  'Tests train on a few random full-rank data sets and compare with one solution.',
  ['mdp/nodes/pca_nodes.py', 'mdp/nodes/sfa_nodes.py', 'mdp/nodes/fda_nodes.py', 'mdp/nodes/regression_nodes.py', 'mdp/nodes/nipals.py'], [('principal components', 'mdp/nodes/pca_nodes.py: PCANode, WhiteningNode; mdp/nodes/nipals.py: NIPALSNode'), ('slow features', 'mdp/nodes/sfa_nodes.py: SFANode, SFA2Node'), ('discriminants and regression', 'mdp/nodes/fda_nodes.py: FDANode; mdp/nodes/regression_nodes.py: LinearRegressionNode')],
  observe=['d', 'v', 'sf', 'beta', 'execute()', 'inverse()', 'explained_variance', 'output_dim'])
p('A01', 'Iterative learning nodes follow their learning rule',
  "For every data set, chunking, order of presentation and parameter setting, growing neural gas and neural gas nodes hold after each step the graph (positions, edges with ages, errors, hits) which their published rule gives; the factor analysis node performs EM cycles, each of which does not decrease the likelihood, until the relative improvement is below the tolerance or the cycles are used up, and reports the most probable causes and generated data of the fitted model. "
  "ISFANode finds a rotation for which no rotation of a pair of components improves the contrast; its contrasts, filters, ordering and inverse are those of the definition, and the matrices, positions and data of the caller stay as they are.",
  ['inputs', 'histories', 'configurations'], 'all data sets of up to 6 samples over small value sets, all presentation orders of the neural gas within its epochs, all parameter combinations; all small symmetric lag matrices and weights for ISFA',
  'Tests train on large random data and check a coarse criterion of the result.',
  ['mdp/nodes/neural_gas_nodes.py', 'mdp/nodes/em_nodes.py', 'mdp/nodes/isfa_nodes.py'], [('neural gas', 'mdp/nodes/neural_gas_nodes.py: GrowingNeuralGasNode, NeuralGasNode'), ('factor analysis', 'mdp/nodes/em_nodes.py: FANode'), ('independent slow features', 'mdp/nodes/isfa_nodes.py: ISFANode')],
  observe=['graph', 'get_nodes_position()', 'A, sigma, lhood', 'RP, RPC, final_contrast'])
p('N08', 'Arrays stay the property of the caller',
  "For every node, moment estimator and flow: once a call has returned, the caller may overwrite the arrays and lists it handed over, and the results it received, at any later moment, without any influence on what the node has learnt, on later results, or on other results it received earlier. "
  "In particular a flow may be trained, executed and inverted with an iterator that fills one and the same array for every chunk. Arrays given to a constructor are never changed.",
  ['histories', 'inputs'], 'every node of the catalogue, plain and bidirectional: every argument and every result of a whole life, overwritten after every later call; flows over seven kinds of chains and chunk sizes with one buffer',
  'Tests use fresh arrays for every call.',
  ['mdp/signal_node.py', 'mdp/linear_flows.py', 'bimdp/biflow.py', 'mdp/nodes/misc_nodes.py'], [('collected data', 'mdp/signal_node.py: VariadicCumulator; mdp/nodes/misc_nodes.py: HistogramNode'), ('chunk results', 'mdp/linear_flows.py: Flow.execute/inverse; bimdp/biflow.py: BiFlow.execute')],
  observe=['results of later calls', 'earlier results'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
