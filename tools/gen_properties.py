#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=hook)))

prop('C01', 'The captured call stack is exactly the filtered caller chain',
  'For any running frame, the captured stack lists that frame and its callers from the outermost inwards, cut off just inside the nearest frame (walking outwards) that is the base frame or runs the base code, and leaves out exactly the frames that are ignored or that run ignored code. '
  'A profiler applies its own base and ignore settings to every capture. The pure-Python implementation and the compiled accelerator give the same answer.',
  ['inputs'], 'every finite chain of frames, every base frame/base code, every set of ignored frames and codes',
  'test_utils.py captures one three-frame chain with one base frame and one ignore list; depth, repeated code (recursion), combinations of base and ignore, and the compiled module (never built here) are not reached.',
  ['profiling/utils.py', 'profiling/profiler.py', 'profiling/speedup.c'],
  [('walk of f_back with base cut and ignore filter', 'profiling/utils.py:frame_stack'), ('same walk over PyFrameObject', 'profiling/speedup.c:frame_stack'), ('passes the profiler settings on', 'profiling/profiler.py:Profiler.frame_stack')],
  observe=['return value of frame_stack'])

prop('C02', 'Tracing counts every call at its own call path',
  'After any sequence of trace events, the own hits shown for a function at a call path equal the number of call events delivered for that function with exactly that chain of (profiled) callers, also when the function was first seen only as an ancestor of another profiled call. '
  'Callers that were never themselves entered appear on the path with zero own hits. Return events and events about C functions create no hits and change no other function.',
  ['histories', 'inputs'], 'every sequence of call / return / c_* events with any stack, from any reachable statistics tree',
  'test_tracing.py delivers one call and one return for one fixed stack to an empty tree; trees built by earlier events (an ancestor that is entered later, recursion) are not reached.',
  ['profiling/tracing/__init__.py', 'profiling/stats.py'],
  [('event handler', 'profiling/tracing/__init__.py:TracingProfiler._profile'), ('entering', 'profiling/tracing/__init__.py:TracingProfiler.record_entering'), ('find or create the node of a code', 'profiling/stats.py:RecordingStatistics.ensure_child')],
  state=[('stats', 'tree of recorded nodes keyed by code at each level', 'profiling/profiler.py:Profiler.stats')],
  observe=['profiler.stats after each event'])

prop('C03', 'Traced time is elapsed time net of the profiler\'s own overhead',
  'When a call returns, the inclusive time of the function at that call path grows by the timer time that passed between the call event and the return event, minus the time the profiler itself spent handling events in between, and never by less than zero. '
  'Each return is matched only with the entry of the same frame and is used up by it; a return whose entry was not seen changes no time. The reported CPU time of a result likewise excludes the accumulated overhead and is never negative.',
  ['histories', 'inputs'], 'every sequence of call/return events, any interleaving of frames, any non-decreasing timer readings',
  'Tests only compare ratios of times measured by spinning; they use real clocks, so no exact relation between readings and recorded times is checked, and unmatched or interleaved returns are not tried.',
  ['profiling/tracing/__init__.py'],
  [('overhead bookkeeping around each event', 'profiling/tracing/__init__.py:TracingProfiler._profile'), ('entry times keyed by code and frame', 'profiling/tracing/__init__.py:TracingProfiler.record_leaving'), ('CPU time minus overhead', 'profiling/tracing/__init__.py:TracingProfiler.result')],
  state=[('_times_entered', 'net entry time of every frame that is still running', 'profiling/tracing/__init__.py'), ('overhead', 'timer time spent inside the event handler', 'profiling/tracing/__init__.py')],
  observe=['profiler.stats deep_time', 'profiler.overhead', 'profiler.result()'])

prop('C04', 'Each sample adds exactly one hit, at the sampled call path',
  'Taking a sample adds exactly one own hit to the sampled frame\'s function at its exact call path and changes no other recorded number, also when that function was first seen only as a caller of a sampled function. '
  'Callers not yet on the tree are added with zero own hits; nothing is removed. Hence the inclusive hits of the whole tree equal the number of samples taken.',
  ['histories', 'inputs'], 'every sequence of samples of any stacks, with any base/ignore settings, from any reachable tree',
  'test_sampling.py compares hit ratios of two functions with 20% tolerance; a lost or misplaced sample stays invisible.',
  ['profiling/sampling/__init__.py', 'profiling/stats.py'],
  [('walk and count', 'profiling/sampling/__init__.py:SamplingProfiler.sample'), ('find or create the node of a code', 'profiling/stats.py:RecordingStatistics.ensure_child')],
  observe=['profiler.stats after each sample'])

prop('C05', 'Derived measures follow from the recorded ones',
  'For every node of a recorded or frozen statistics tree: inclusive hits equal its own hits plus the own hits of all its descendants; own time equals its inclusive time minus the inclusive time of its direct children, but never less than zero; per-call times are the time divided by own hits, or zero without hits. '
  'For a caller that was never itself entered, own hits are zero and inclusive time is the sum of the inclusive times of its children. Reading a measure changes nothing.',
  ['inputs'], 'every finite statistics tree with any recorded hits and times',
  'Tests evaluate these on one or two hand-made nodes; absent (never entered) callers and nesting of them are not checked exactly.',
  ['profiling/stats.py'],
  [('deep_hits', 'profiling/stats.py:Statistics.deep_hits'), ('own_time', 'profiling/stats.py:Statistics.own_time'), ('per call', 'profiling/stats.py:Statistics.deep_time_per_call'), ('absent frame', 'profiling/stats.py:VoidRecordingStatistics')],
  observe=['attributes of statistics objects'])

prop('C06', 'Saving and loading statistics preserves the whole tree',
  'Pickling any statistics tree and loading it back gives a frozen tree of the same shape and child order, in which every node has the same name, filename, line number, module, own hits and inclusive time. '
  'The original is not modified, the depth of the tree does not matter, and a frozen tree survives another round trip unchanged.',
  ['inputs'], 'every finite statistics tree, any depth and branching, any pickle protocol',
  'test_pickle round-trips a single leaf; test_frozen cannot run on this interpreter and covers one child; the benchmark tests load without comparing anything.',
  ['profiling/stats.py'],
  [('flatten to a member list', 'profiling/stats.py:make_frozen_stats_tree'), ('rebuild', 'profiling/stats.py:frozen_stats_from_tree'), ('pickle hook', 'profiling/stats.py:Statistics.__reduce__')],
  observe=['pickle.loads(pickle.dumps(stats))'])

prop('C07', 'Flattening conserves every measure per function',
  'The flat view of a tree has exactly one entry per distinct function (name, filename, line number and module) among the descendants, and each of its own hits, inclusive hits, own time and inclusive time is the sum of that measure over all the descendants for that function. '
  'The flat root keeps the identity and the measures of the original root, and the original tree is not modified.',
  ['inputs'], 'every finite statistics tree with any repetition of functions (recursion, several callers)',
  'test_flatten checks only own_hits of one five-node tree in which functions differ by name alone.',
  ['profiling/stats.py'], [('accumulate per key', 'profiling/stats.py:FlatFrozenStatistics.flatten')],
  observe=['FlatFrozenStatistics.flatten(stats)'])

prop('C08', 'Walking a tree visits each descendant exactly once',
  'Walking the descendants of a statistics node yields each proper descendant exactly once, level by level, and not the node itself. '
  'In selective mode it yields exactly the children of the starting node and of those visited nodes that the consumer asked to spread. The walk needs no recursion, so any depth works.',
  ['inputs'], 'every finite tree and every consumer decision about which nodes to spread',
  'test_spread_stats walks one five-node tree in plain mode; selective mode is never tested directly.',
  ['profiling/stats.py'], [('queue of pending nodes', 'profiling/stats.py:spread_stats'), ('consumer decision', 'profiling/stats.py:spread_t')],
  observe=['spread_stats(stats)', 'spread_stats(stats, spreader=True)'])

prop('C09', 'Recorded children form a faithful map from code to node',
  'Asking a recorded node to ensure a child for a code returns the node already recorded for that code, or else adds exactly one new empty one; a node recorded so far only as an absent caller is turned into a counting one when a counting one is asked for, keeping its children and inclusive time. '
  'Getting, adding, removing, discarding and testing for a child affect that code only; iterating, the length and the child list agree with each other. Clearing leaves no children and resets the measures to their initial values.',
  ['histories'], 'every sequence of child operations with any codes on any recorded node',
  'test_recording tries ensure/discard for a single key on an empty node; other keys, existing children and clearing of used nodes are not checked.',
  ['profiling/stats.py'], [('child operations', 'profiling/stats.py:RecordingStatistics'), ('defaults of the measures', 'profiling/stats.py:StatisticsMeta')],
  observe=['RecordingStatistics methods'])

prop('C10', 'Sort keys order statistics as documented and can be inverted',
  'Sorting the children of any statistics returns exactly those children, ordered by the chosen key: hits and times in descending order (own time ties broken by inclusive time), names, modules and functions in ascending order with missing names first. '
  'Every key can compare any two statistics, including ones without a name, module or hits. The inverted key gives the opposite order.',
  ['inputs'], 'every pair (hence every list) of statistics with any measures, names present or missing',
  'test_sorting fails on this interpreter for an unrelated reason, and uses three children with names and hits only.',
  ['profiling/sortkeys.py', 'profiling/stats.py'], [('key functions', 'profiling/sortkeys.py'), ('sorted children', 'profiling/stats.py:Statistics.sorted')],
  observe=['Statistics.sorted(key)', '~key'])

prop('C11', 'Start/stop life cycle is a strict two-state machine',
  'A profiler, timer or sampler is running exactly between a start that succeeded and the next stop: starting a running one or stopping an idle one raises an error and changes nothing (in particular keeps what was recorded so far), and a start that fails leaves it idle so that it can be started again. '
  'A run implementation that does not yield exactly once, without a value, is reported as a type error. As a context manager it is stopped on every exit from the block.',
  ['histories', 'fault_sequences'], 'every sequence of start/stop/with on every implementation of the run body: yields zero, one or two times, yields a value, raises before or after the yield',
  'test_runnable checks a handful of sequences on three run bodies; a run body that raises, restart after failure and restart of a running profiler with data are not tried.',
  ['profiling/utils.py', 'profiling/profiler.py'], [('state machine', 'profiling/utils.py:Runnable'), ('reset on start', 'profiling/profiler.py:Profiler.start')],
  state=[('_running', 'the suspended run body, or None when idle', 'profiling/utils.py:Runnable')],
  observe=['is_running()', 'exceptions of start() and stop()', 'profiler.stats'])

prop('C12', 'Stopping gives back every hook, handler and timer',
  'After profiling stops, or fails part-way while starting, the process is as before: no interpreter or threading profile hook remains, the previous profiling-signal handler and interval timer are back (a default handler is replaced by ignoring the signal), and the CPU timer or sampler that was started is stopped. '
  'A tracing profiler refuses to start while another profile hook is installed and then leaves that hook in place. While running, exactly the requested hook, handler, interval and timer are installed.',
  ['fault_sequences', 'histories'], 'every point at which an installation or the timer can fail, every previous handler and interval timer',
  'Tests check the hook after one successful run and the handler for two previous handlers; failing installations are not tried and the interval timer and threading hooks are not looked at.',
  ['profiling/tracing/__init__.py', 'profiling/sampling/__init__.py', 'profiling/sampling/samplers.py', 'profiling/tracing/timers.py', 'profiling/utils.py'],
  [('hooks', 'profiling/tracing/__init__.py:TracingProfiler.run'), ('signal and itimer', 'profiling/sampling/samplers.py:ItimerSampler.run'), ('sampling hooks', 'profiling/sampling/samplers.py:TracingSampler.run'), ('sampler', 'profiling/sampling/__init__.py:SamplingProfiler.run'), ('greenlet trace', 'profiling/tracing/timers.py:GreenletTimer.run')],
  observe=['sys.getprofile()', 'signal.getsignal(SIGPROF)', 'signal.getitimer(ITIMER_PROF)'])

prop('C13', 'Deferred calls all run exactly once, last first',
  'Every call deferred inside a deferral block is made exactly once, with exactly the arguments given, when the block is left, in the reverse order of deferring, whether the block ends normally or by an exception. '
  'None is made before that. A deferred call that fails does not keep the remaining ones from being made, and its error is not swallowed.',
  ['inputs', 'fault_sequences'], 'every number of deferred calls, every way of leaving the block, any deferred call failing',
  'test_utils.py defers two calls in one fixed example each; failing deferred calls are not tried.',
  ['profiling/utils.py'], [('deferral', 'profiling/utils.py:deferral')], observe=['order of the deferred calls'])

prop('C14', 'A contextual timer counts only the time its context was running',
  'The time read for a context equals the total clock time during which that context was resumed, added to what it had when it was last paused; while it is paused the reading stands still, and pausing or resuming another context or reading the timer does not change it. '
  'On a greenlet switch the timer pauses the greenlet switched from and resumes the one switched to.',
  ['histories'], 'every history of pauses and resumes of any number of contexts at any clock readings (a context is resumed only when paused or new)',
  'test_timers.py compares two threads/greenlets by which took longer; no reading is checked exactly.',
  ['profiling/tracing/timers.py'], [('pause/resume bookkeeping', 'profiling/tracing/timers.py:ContextualTimer'), ('switch hook', 'profiling/tracing/timers.py:GreenletTimer._trace')],
  state=[('_contextual_times', 'per context: time when paused, and clock at resumption or None when paused', 'profiling/tracing/timers.py')],
  observe=['timer(context)'])

prop('C15', 'Per-thread sampling keeps the interval and forgets only dead threads',
  'The per-thread sampler samples a thread at an event exactly when at least the sampling interval of that thread\'s CPU time has passed since it last sampled that thread, so never twice within an interval and never later than the first event after it. '
  'Sampling one thread does not affect when others are sampled. The periodic clean-up forgets exactly the threads that no longer exist.',
  ['histories'], 'every sequence of events from any threads at any thread-clock readings, including beyond the clean-up period',
  'The tests of this sampler are skipped here (yappi missing) and deliver three events of one thread; the clean-up after 10000 samples is never reached.',
  ['profiling/sampling/samplers.py'], [('rate limit', 'profiling/sampling/samplers.py:TracingSampler._profile'), ('clean-up', 'profiling/sampling/samplers.py:TracingSampler._clear_for_dead_threads')],
  state=[('sampled_times', 'thread id to thread CPU time of its last sample', 'profiling/sampling/samplers.py')],
  observe=['profiler.sample calls'])

prop('C16', 'Remote messages survive any segmentation of the stream',
  'Whatever method byte and message are packed, receiving from a byte stream that carries the packed messages, cut into arbitrary pieces, yields exactly the same methods and messages in order and consumes exactly their bytes. '
  'If the connection ends inside a message, receiving raises a connection error instead of returning a truncated or wrong message.',
  ['inputs', 'schedules'], 'every message size up to the 32-bit limit, every method byte, every way the transport splits the bytes, every point of disconnection',
  'No test covers the remote package at all.',
  ['profiling/remote/__init__.py'], [('framing', 'profiling/remote/__init__.py:pack_msg'), ('exact receive', 'profiling/remote/__init__.py:recv'), ('unframing', 'profiling/remote/__init__.py:recv_msg')],
  observe=['recv_msg(sock)'])

prop('C17', 'A connecting client gets the greeting in order and is managed once',
  'A client that connects is sent, in this order, a welcome with the pickle protocol and version in the oldest protocol, the class of the innermost profiler, and, if there is one, the latest result; the first client makes profiling start. '
  'If its connection breaks during this, it is dropped without an error reaching the server. A client that goes away is forgotten and closed exactly once, however often the disconnection is reported.',
  ['histories', 'fault_sequences'], 'every set of existing clients, every nesting of profiler wrappers, every send failing with a connection error, repeated disconnections',
  'No test covers the servers.',
  ['profiling/remote/__init__.py'], [('greeting', 'profiling/remote/__init__.py:ProfilingServer.connected'), ('removal', 'profiling/remote/__init__.py:ProfilingServer.disconnected')],
  state=[('clients', 'the connected clients', 'profiling/remote/__init__.py:ProfilingServer'), ('_latest_result_data', 'packed latest result', 'profiling/remote/__init__.py:ProfilingServer')],
  observe=['bytes sent to each client', 'close calls', 'start of profiling'])

prop('C18', 'Each profiling cycle broadcasts one result to every client',
  'While there are clients, every cycle of the server runs the profiler for one interval, stops it, and then sends the same packed result once to every client connected at that time; the latest result is kept for later clients. '
  'A client whose send fails is dropped and closed, so no client ever receives anything after a partly sent message, and the other clients are still served. When the last client is gone profiling ends with the profiler stopped, and at most one profiling loop runs at a time, also when a client connects at the moment the last one leaves.',
  ['histories', 'fault_sequences'], 'every history of clients connecting and disconnecting between and during cycles, every subset of sends failing',
  'No test covers the servers.',
  ['profiling/remote/__init__.py', 'profiling/remote/select.py', 'profiling/remote/gevent.py', 'profiling/remote/asyncio.py'],
  [('cycle and broadcast', 'profiling/remote/__init__.py:ProfilingServer.profiling'), ('start of the loop', 'profiling/remote/__init__.py:ProfilingServer.connected')],
  observe=['bytes sent to each client', 'profiler.is_running()'])

prop('C19', 'The background profiler toggles the real one and waits for it',
  'Starting (stopping) a profiler through its background wrapper sends the agreed signal to the process once and returns only after the handler has started (stopped) the wrapped profiler, even if that raised. '
  'The wrapper always shows the wrapped profiler\'s statistics, result, running state and viewer table, and is dumped and viewed as it.',
  ['histories', 'fault_sequences'], 'every sequence of start/stop, handler runs that succeed or fail, any signal number',
  'test_wrapper checks delegation of a simple wrapper; the signal handshake is not tested.',
  ['profiling/remote/background.py', 'profiling/profiler.py'], [('handshake', 'profiling/remote/background.py:BackgroundProfiler'), ('delegation', 'profiling/profiler.py:ProfilerWrapper')],
  observe=['signals sent', 'wrapped profiler state'])

prop('C20', 'The client shows what arrives and keeps reconnecting',
  'A client hands every received message to the viewer according to its kind: a welcome activates it, a profiler class selects its table, a result is displayed with title and time; unknown kinds are ignored. '
  'On a connection error it stops watching the socket and marks the viewer inactive. A fail-over client then opens a new connection to the same address and retries, after the fail-over interval if the server refuses or its socket file is missing, at once otherwise.',
  ['inputs', 'fault_sequences'], 'every message kind, every errno on receive and on connect',
  'No test covers the client.',
  ['profiling/remote/client.py'], [('dispatch', 'profiling/remote/client.py:protocol'), ('error path', 'profiling/remote/client.py:ProfilingClient.erred'), ('reconnect', 'profiling/remote/client.py:FailoverProfilingClient')],
  observe=['viewer calls', 'event-loop watches and alarms'])

prop('C21', 'Waiting for sockets honours interruptions and the timeout',
  'Waiting for incoming sockets with a timeout returns the ready sockets or, once the timeout has passed, nothing; an interrupted or invalid wait is retried only for the time that is left, never longer, and without a timeout it is retried until something is ready. Any other error is passed on. '
  'Each ready listener leads to one accepted and registered client; each ready client socket leads to that client being disconnected, also when it was reset.',
  ['fault_sequences', 'schedules'], 'every sequence of interruptions, errors and elapsed times, every set of ready sockets',
  'No test covers the select server.',
  ['profiling/remote/select.py'], [('retry loop', 'profiling/remote/select.py:SelectProfilingServer.select_sockets'), ('dispatch', 'profiling/remote/select.py:SelectProfilingServer.dispatch_sockets')],
  observe=['arguments of select()', 'connected/disconnected calls'])

prop('C22', 'Displayed numbers denote the values they stand for',
  'A displayed count is the whole number itself or, from 1000 on, the value divided by the power of 1000 its unit stands for, to one decimal, with the smallest unit that keeps it below 1000 after rounding, and an overflow/underflow mark beyond the last unit; a percentage is the ratio times 100 with 0, 1 or 2 decimals depending on its size, and zero for a zero denominator. '
  'A time is shown in us, ms, sec, minutes and seconds, or minutes according to its size. The colour class follows the documented thresholds of the same value. Each column of the tracing and sampling tables shows the figure its heading names, for the statistics of its row.',
  ['inputs'], 'every count, ratio, denominator and time',
  'test_viewer.py samples some twenty values; boundaries between units and precisions and the colour classes are only sampled.',
  ['profiling/viewer.py', 'profiling/tracing/__init__.py', 'profiling/sampling/__init__.py'], [('formatters', 'profiling/viewer.py:Formatter'), ('columns', 'profiling/tracing/__init__.py:TracingStatisticsTable.make_cells'), ('columns', 'profiling/sampling/__init__.py:SamplingStatisticsTable.make_cells')], observe=['format_* and attr_* results'])

prop('C23', 'A paused viewer is frozen and resumes with the latest result',
  'While the viewer is paused, arriving results never change what is displayed; on resuming it displays the result that arrived last, and when not paused every arriving result is displayed at once, with its CPU and wall times, title and time. '
  'Choosing a profiler class switches to exactly that class\'s table and keeps the current table if it already is one. The frame shows paused, inactive or active according to the viewer state.',
  ['histories'], 'every sequence of results, pauses, resumes, activations and profiler classes',
  'test_viewer.py tests only number formats.',
  ['profiling/viewer.py'], [('pause and resume', 'profiling/viewer.py:StatisticsViewer'), ('display', 'profiling/viewer.py:StatisticsTable.set_result'), ('header', 'profiling/viewer.py:StatisticsTable.update_frame')],
  state=[('_final_result', 'the latest result', 'profiling/viewer.py:StatisticsViewer'), ('_paused_result', 'the result shown while paused', 'profiling/viewer.py:StatisticsViewer')],
  observe=['table contents', 'header widgets'])

prop('C24', 'Table navigation survives refreshes and cycles through the orders',
  'After a refresh with new statistics the focus is on the node with the same path as before, or on the deepest ancestor of it that still exists; what was expanded stays expanded and what was collapsed stays collapsed, remembered per function: a node is expanded after the refresh if and only if the last node of that function which was expanded or collapsed was expanded, and the root is always expanded. '
  'Stepping the sort order goes to the next or previous sortable column, wrapping around, and changing order or layout redisplays the data while choosing the current one does nothing. In flat layout the displayed tree is the flattened one.',
  ['histories', 'inputs'], 'every tree, focus path, set of expanded nodes, order and step',
  'No test builds a table.',
  ['profiling/viewer.py'], [('path of the focus', 'profiling/viewer.py:StatisticsTable.get_path'), ('find by path', 'profiling/viewer.py:StatisticsTable.find_node'), ('redisplay', 'profiling/viewer.py:StatisticsTable.refresh'), ('order', 'profiling/viewer.py:StatisticsTable.shift_order')],
  state=[('_expanded_stat_hashes', 'hashes of the expanded statistics', 'profiling/viewer.py:StatisticsTable')],
  observe=['focus', 'table.order', 'displayed nodes'])

prop('C25', 'Profiling a script always ends in a stopped profiler and a result',
  'Running a program under the profiler executes its code once, in its globals, with the script\'s own argument list, and whether the program returns or raises anything, the profiler is stopped afterwards and the result is saved to the requested file with the requested protocol or else shown. '
  'The result shows the program from its outermost calls on, without frames of the profiler around them. A saved file contains the profiler class together with the statistics, CPU time and wall time, and viewing it displays exactly these.',
  ['fault_sequences', 'inputs'], 'every way the program ends (return, exception, exit, interrupt), with and without a dump file',
  'test_cli.py only checks usage texts and option defaults; no test runs a program under the command.',
  ['profiling/__main__.py', 'profiling/profiler.py'], [('driver', 'profiling/__main__.py:__profile__'), ('save', 'profiling/profiler.py:Profiler.dump'), ('view', 'profiling/__main__.py:view')],
  observe=['calls on the profiler', 'contents of the dump file', 'sys.argv'])

prop('C26', 'Command-line values select exactly what they name',
  'Option values are interpreted faithfully: class names resolve to the timer or sampler class so named of the right kind, signal names and numbers to that signal, endpoints to host and port number, viewer sources to a dump file, local socket or network address, command aliases to their command; anything else is rejected. '
  'A configured default applies exactly when the option is not given on the command line, with the file .profiling taking precedence over setup.cfg and a built-in default last, converted to the option\'s type. The profiler that is built is of the selected kind with the selected timer, or the selected sampler at the selected interval.',
  ['inputs', 'configurations'], 'every option string, every combination of configuration files',
  'test_cli.py covers one alias table and two configurations; parameter types are not tested except one module.',
  ['profiling/__main__.py'], [('parameter types', 'profiling/__main__.py:Class'), ('signal', 'profiling/__main__.py:SignalNumber'), ('source', 'profiling/__main__.py:ViewerSource'), ('defaults', 'profiling/__main__.py:config_default'), ('profiler factory', 'profiling/__main__.py:profiler_options')],
  observe=['converted values', 'profiler built'])

prop('C27', 'Results measure the span since start and are never negative',
  'Starting a profiler clears what an earlier run recorded; a result taken later carries the live statistics together with the CPU and wall time passed since that start, never negative even if a clock goes backwards. '
  'A profiler that was never started reports zero times. Taking a result does not change what is recorded.',
  ['histories'], 'every clock reading and every order of start, stop and result',
  'test_result checks one spin of 0.1 s and one never-started profiler.',
  ['profiling/profiler.py'], [('start marks', 'profiling/profiler.py:Profiler.start'), ('elapsed times', 'profiling/profiler.py:Profiler.result')],
  observe=['profiler.result()'])

prop('C28', 'Recording is safe under concurrent threads',
  'When several threads are profiled at the same time, no call, sample or time recorded by one thread is lost or attributed to another.',
  ['schedules'], 'every preemptive interleaving of the event handlers of several threads',
  'Tests with threads only compare which of two threads took longer.',
  ['profiling/tracing/__init__.py', 'profiling/stats.py'], [('unlocked updates of a shared tree', 'profiling/tracing/__init__.py:TracingProfiler._profile')],
  observe=['profiler.stats'])

prop('C29', 'Sampled hits are proportional to the CPU time spent',
  'Over a long enough run, the share of samples that a function gets converges to its share of the CPU time.',
  ['schedules', 'programs'], 'every program and every timing of the profiling signal',
  'test_sampling.py measures one 1:5 ratio with tolerance and reruns.',
  ['profiling/sampling/samplers.py'], [('periodic signal', 'profiling/sampling/samplers.py:ItimerSampler')],
  observe=['profiler.stats'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
