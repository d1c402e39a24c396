LEVELS = {
 'C01': ('runtime monitoring: executable reference model over random operation histories',
         'Held on the sampled histories; complete buffer content compared with a model after every few operations; trusts the model (20 lines) and numpy.'),
 'C02': ('runtime monitoring: executable reference model over random operation histories',
         'Held on the sampled histories; complete episode and transition content compared with a model; trusts the model.'),
 'C03': ('runtime monitoring: model of the priority list read back through reported weights, plus statistical oracles',
         'Weights are compared exactly with the model on sampled histories; draw frequencies with a false-alarm probability below 1e-10 per decision.'),
 'C04': ('runtime monitoring: lock-step observation of original and reloaded buffer',
         'Held on the sampled histories and continuations; original and reloaded buffer compared under equal random state.'),
 'C05': ('runtime monitoring: lock-step reference list, random and exhaustive short operation sequences',
         'All sequences of 5 (thorough: 6) basic operations on 8 configurations, plus random longer ones.'),
 'C06': ('runtime monitoring: per-example autograd reference on model clones, parameter change of one SGD update observed',
         'Every listed agent on sampled batches, networks and options; the observed parameter change and reported errors are compared with an independent per-example reference; trusts chainer autograd.'),
 'C07': ('runtime monitoring: per-example autograd reference on model clones, parameter change of one SGD update observed',
         'As C06 for DDPG, PGT, TD3 and SAC; smoothing noise and policy samples are recorded from the run.'),
 'C08': ('runtime monitoring: online checker of the calls reaching the replay buffer against the interaction log',
         'Held on the sampled interaction histories for all replay agents, both interfaces.'),
 'C09': ('runtime monitoring: trace checker of buffer draws, optimizer updates and target parameters against the schedule',
         'Held on the sampled histories and configurations; the event order inside one step is checked as well.'),
 'C11': ('runtime monitoring: online protocol automaton over the event log of environment, agent, hooks, evaluator and saves; fault injection',
         'Thousands of scripted runs incl. aborts at random calls; every event of every run is judged.'),
 'C12': ('runtime monitoring: online protocol automaton over the event log of vector environment, agent, hooks, evaluator, log and saves; fault injection',
         'As C11 for the vectorised loop; one known finding (shared evaluation environment).'),
 'C13': ('runtime monitoring: returned scores, score file and saved agent compared with an independent simulation of scripted environments; concurrent evaluators under injected delays',
         'Held on the sampled schedules; concurrency explored by OS scheduling plus random delays.'),
 'C14': ('runtime monitoring: offline checker over merged event records of real worker processes (exactly-once global steps, shared memory, saves) with injected delays and worker failures',
         'Interleavings are those the OS produced under injected delays (counted in the evidence).'),
 'C16': ('runtime monitoring: lock-step comparison with one-sequence-at-a-time stepping of the same links, state snapshots around every state operation',
         'Random compositions, lengths, batch and state operations; two known findings (tuple-valued sequences).'),
 'C19': ('runtime monitoring: values and gradients compared with double precision closed forms, statistical tests of samples',
         'Random parameters incl. extreme regimes; sample tests alarm at p < 1e-10.'),
 'C20': ('runtime monitoring: values, gradients and projections compared with double precision references in random access orders',
         'Random parameters, supports and target regimes.'),
 'C25': ('runtime monitoring: lock-step comparison with statistics of the whole data recomputed in double precision after every operation',
         'Random operation histories; error bounds follow single precision arithmetic.'),
 'C27': ('runtime monitoring: array snapshots before and after each operation against references; real processes taking turns on shared memory',
         'Random model structures and schedules; CPU only.'),
 'C29': ('runtime monitoring: values, gradients and bounds compared with double precision references recomputed from the parameters, statistical tests of noise',
         'Random shapes, depths, configurations and inputs; CPU, float32.'),
 'C24': ('runtime monitoring: recorded selections of explorers and agents tested against independent schedules and distributions',
         'Random configurations; exact where determined, otherwise statistical tests with p < 1e-10.'),
 'C10': ('runtime monitoring: twin runs of the same agent with and without evaluation in between, full state compared',
         'All agents, random interaction histories; state, parameters and continuation compared exactly.'),
 'C15': ('runtime monitoring: lock-step comparison of an agent with its saved and reloaded copy, fault injection',
         'All agents on sampled histories; one known finding (average reward of A3C).'),
 'C17': ('runtime monitoring: lock-step comparison with members stepped alone, call logs and process states of the workers',
         'Random operation histories, masks, member speeds; worker processes observed until they end.'),
 'C18': ('runtime monitoring: taps between all layers of random wrapper stacks, per-wrapper oracles over the recorded calls',
         'Random stacks on scripted environments plus the real emulator; cv2 itself is trusted.'),
 'C28': ('runtime monitoring: files read back and compared with the event log; concurrent processes; directory snapshots',
         'Random budgets and environments; races explored by OS scheduling.'),
 'C21': ('runtime monitoring: inputs of every parameter update matched to collected transitions; parameter changes compared with references computed from independently credited transitions',
         'Random configurations and histories; SGD on CPU; updates at kinks of the clipped losses are only counted.'),
 'C22': ('runtime monitoring: divergence, surrogate objective and step direction of every policy update recomputed in double precision',
         'Random policies, datasets and configurations; directions compared where the reference is insensitive to rounding.'),
 'C23': ('runtime monitoring: every parameter update of A3C, NSQ, REINFORCE, PCL and ACER compared with the gradient of the documented objective computed independently on a clone',
         'Random histories, models, options and concurrent parameter changes; plain SGD; ACER steps whose trust region factor is decided by rounding are skipped.'),
 'C26': ('runtime monitoring: complete event logs of the same programs compared between processes with different hash seeds, clocks, memory layouts and histories',
         'Randomly generated small programs; one thread per process; CPU.'),
 'C30': ('runtime monitoring: every step of the Atari environment in lock step with a second emulator fed with the recorded actions; toy environment against its documented state machine',
         'Random play of 36 NTSC games and random options; terminal observations only by shape.'),
 'C31': ('runtime monitoring: returned model content and server request log checked while concurrent real processes are killed and interrupted at random events and the server fails',
         'Kill points are random profile events (calls and returns, C and Python) of a real client; a local HTTP server injects delays and failures.'),
 'C32': ('runtime monitoring: statistics recomputed after every step from monitored model outputs, differentiated losses and optimizer calls',
         'All agents, feed-forward models; losses are the values whose gradients were taken.'),
 'C33': ('runtime monitoring: whole programs under in-process hooks (environments, agent calls, evaluations, files) and comparison of repeated runs',
         'All 32 programs that can run here (Gym and Atari), each with random options; few steps per run; grasping and atlas need simulators that are not installed.'),
}
NA = {}
