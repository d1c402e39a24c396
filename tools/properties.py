"""Source of properties.jsonl (python3 tools/properties.py writes it)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None,
         observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {'files': files,
         'mechanism': [{'name': n, 'where': w} for n, w in mech],
         'hook_needed': None}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w}
                      for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


prop('C01', 'Transition replay holds exactly the right n-step windows per stream',
     'For every interleaving of appended transitions from several environment '
     'streams and of episode ends (terminal transition or explicit stop), the '
     'uniform and the prioritized transition replay buffers hold exactly one '
     'window per starting transition, made of that transition and the '
     'following ones of the same episode and stream, in order and unmodified, '
     'n long except where the episode ended earlier; a window becomes '
     'available as soon as it is complete. A bounded buffer never exceeds its '
     'capacity and drops only the oldest windows. A draw returns the requested '
     'number of held windows without repetition, and the uniform buffer '
     'includes every held window with equal probability.',
     ['histories', 'configurations'],
     'All histories of append/stop/draw over any number of streams, any n-step '
     'length and capacity.',
     'The unit tests replay a few hand-written histories with one or two '
     'streams; interleavings, eviction across many fills, stop right before or '
     'after a full window and n larger than an episode are not sampled.',
     ['chainerrl/replay_buffers/replay_buffer.py',
      'chainerrl/replay_buffers/prioritized.py',
      'chainerrl/misc/collections.py', 'chainerrl/misc/random.py'],
     [('sliding window of the last n transitions per stream',
       'ReplayBuffer.append / stop_current_episode'),
      ('bounded FIFO memory', 'RandomAccessQueue, PrioritizedBuffer.append'),
      ('distinct uniform indices', 'misc/random.py sample_n_k')],
     observe=['sample(len(buffer))', 'len(buffer)'])

prop('C02', 'Episodic replay stores whole episodes exactly once',
     'For every interleaving of appends from several streams and of episode '
     'ends, an episodic replay buffer holds whole episodes only, each being '
     'exactly the in-order list of transitions of one stream between two '
     'episode boundaries, and the transitions drawn individually are exactly '
     'those of the held episodes. A bounded buffer keeps the total number of '
     'transitions within capacity by dropping oldest episodes entirely, no '
     'more than needed. Drawing episodes returns the requested number of '
     'distinct held episodes, or, with a length limit, one contiguous '
     'in-order part of each of the limited length with every start equally '
     'likely.',
     ['histories', 'configurations'],
     'All histories of append/terminal/stop/draw over any streams, both '
     'episodic buffers, any capacity, mixing ratio and length limit.',
     'Tests use a handful of short single-stream episodes and no eviction in '
     'the prioritized variant.',
     ['chainerrl/replay_buffers/episodic.py',
      'chainerrl/replay_buffers/prioritized_episodic.py',
      'chainerrl/replay_buffer.py', 'chainerrl/misc/prioritized.py'],
     [('current episode per stream, moved on episode end',
       'EpisodicReplayBuffer.stop_current_episode'),
      ('eviction by whole episodes', 'stop_current_episode'),
      ('contiguous subsequence', 'replay_buffer.random_subseq')],
     observe=['sample_episodes(n_episodes)', 'sample(len(buffer))'])

prop('C03', 'Prioritized draws follow priorities; weights and updates match them',
     'In the prioritized buffers an item is selected, without repetition '
     'within one draw, proportionally to its current priority (mixed with the '
     'configured uniform ratio), where the priority is the clipped reported '
     'error plus epsilon to the power alpha, new items get the highest '
     'priority seen so far (or their given default), and an error report '
     'changes exactly the items of the latest draw. The importance weight '
     'reported for each drawn item is its selection probability (times the '
     'number of items, or divided by the minimum over the draw or over the '
     'memory as configured) to the power minus beta, with beta annealed '
     'linearly from its initial value to 1 over the configured number of '
     'draws. This stays true under any history of appends, evictions, draws '
     'and error reports, and drawing twice without a report where one is '
     'required is refused.',
     ['histories', 'configurations', 'inputs'],
     'All histories of append/evict/draw/report and all alpha, beta, epsilon, '
     'clipping, normalisation and mixing settings.',
     'Tests check a few frequencies with loose tolerances on static contents; '
     'the tree-structured priority store is only exercised on short '
     'histories.',
     ['chainerrl/misc/prioritized.py', 'chainerrl/replay_buffers/prioritized.py',
      'chainerrl/replay_buffers/prioritized_episodic.py'],
     [('sum and min trees over a moving index window',
       'misc/prioritized.py TreeQueue'),
      ('error to priority, weights, beta annealing',
       'PriorityWeightError')],
     state=[('priority list', 'priority of every held item',
             'PrioritizedBuffer')],
     observe=['weights of drawn items', 'draw frequencies'])

prop('C04', 'A saved replay buffer loads back with the same content and behaviour',
     'Saving any of the four replay buffers and loading the file into a buffer '
     'constructed with the same arguments yields a buffer with the same '
     'finished content, which under any identical further sequence of '
     'appends, stops, draws and error reports (and the same random state) '
     'behaves exactly like the original, including its capacity bound, '
     'eviction order and selection probabilities. The file is a snapshot '
     'unaffected by later use of the buffer.',
     ['histories', 'crash_points'],
     'All histories before the save, all save points, all continuations.',
     'Tests compare contents right after one load; behaviour after the load '
     '(eviction, priorities) is not exercised.',
     ['chainerrl/replay_buffers/replay_buffer.py',
      'chainerrl/replay_buffers/episodic.py',
      'chainerrl/replay_buffers/prioritized_episodic.py',
      'chainerrl/misc/prioritized.py'],
     [('pickled memory', 'ReplayBuffer.save/load, '
       'EpisodicReplayBuffer.save/load')],
     observe=['lock-step draws of original and reloaded buffer'])

prop('C05', 'The random-access queue is a bounded FIFO list',
     'Under any sequence of operations the random-access queue shows exactly '
     'the elements a plain list would after the same appends, extensions, left '
     'pops and assignments, with the oldest elements dropped beyond its '
     'maximum length. Indexing, negative indexing, iteration, length, '
     'assignment and sampling agree with that list, and out-of-range access '
     'raises an index error.',
     ['histories'],
     'All operation sequences and maximum lengths.',
     'Random-operation unit tests cover a few fixed-length runs against a '
     'deque; they do not cover construction beyond the bound, '
     'extension and assignment mixes exhaustively.',
     ['chainerrl/misc/collections.py'],
     [('two-stack queue', 'RandomAccessQueue')])

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                       'properties2.py')).read())

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
