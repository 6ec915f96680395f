import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=state
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    P.append(d)

p('B01','Session endpoints are created cross-connected to exactly their dual',
 "Creating a session of any kind (payload-sending, payload-receiving, their timed forms, the end of a session, and every multiparty bundle of sessions) returns two endpoints joined by fresh private channels: whatever one endpoint sends arrives at the other endpoint and nowhere else, and never comes back to its sender. A terminated session is connected in both directions, so each side's closing signal reaches the other side. Every channel created for a session can buffer exactly one message.",
 ['programs','inputs'],'every session type and every way the library creates a pair of endpoints',
 "A self-connected or swapped end of session still type-checks (both halves have the same type) and a close on a self-connected pair even succeeds, so the sampled tests that close cleanly cannot tell.",
 ['src/binary/struct_trait/send.rs','src/binary/struct_trait/recv.rs','src/binary/struct_trait/end.rs','src/binary_atmp/struct_trait/send.rs','src/binary_atmp/struct_trait/recv.rs','src/meshedchannels/mod.rs','mpst_seq_proc/src/common_functions/expand/meshedchannels.rs','mpst_seq_proc/src/macros_multiple/multiple/create_meshedchannels.rs'],
 [('Session::new of Send/Recv/End','src/binary/struct_trait'),('Session::new of SendTimed/RecvTimed','src/binary_atmp/struct_trait'),('Session::new of MeshedChannels','src/meshedchannels/mod.rs')])

p('B02','A binary send, receive or choice moves exactly one payload over its session',
 "Sending on a session transmits exactly the given payload, once, on that session's own channel, together with one end of a freshly created continuation, and hands the caller the other end of that same continuation. Receiving returns exactly the payload and continuation that arrived on that session's channel. A binary choice transmits the label of the branch that was asked for (left as left, right as right) with one end of the chosen continuation, and the chooser goes on with the other end.",
 ['inputs','histories'],'every payload, every continuation type, every binary operation of the plain, affine and timed layers',
 "Tests send a few values through a few fixed protocols; a continuation that is created but not the one transmitted, or a payload sent twice or on a second channel, only shows in protocols that use that continuation.",
 ['src/binary/send.rs','src/binary/recv.rs','src/binary/choose.rs','src/binary_atmp/send.rs','src/binary_atmp/recv.rs','src/binary_atmp/choose.rs'],
 [('send / send_canceled','src/binary/send.rs'),('recv','src/binary/recv.rs'),('choose_left / choose_right','src/binary/choose.rs'),('timed send / recv','src/binary_atmp')])

p('B03','Losing the peer always surfaces, and is never turned into success',
 "A receive, offer or close on a session whose peer has gone away (dropped, cancelled or crashed) returns an error or panics; it never returns a payload, runs a branch or reports success. The affine (cancellation-aware) sends likewise fail instead of reporting success when the peer is gone, while the plain send ignores a missing peer and continues without failing.",
 ['fault_sequences','schedules'],'every operation of every layer, every point at which the peer can disappear',
 "Existing tests make the peer disappear at a handful of points; the property is about every operation in every layer and every failure point.",
 ['src/binary/send.rs','src/binary/recv.rs','src/binary/offer.rs','src/binary/close.rs','src/functionmpst/recv.rs','src/functionmpst/close.rs','src/binary_atmp/send.rs','src/binary_atmp/recv.rs','mpst_seq_proc/src/common_functions/expand/recv.rs','mpst_seq_proc/src/common_functions/expand/close.rs'],
 [('? on the channel receive','recv functions of every layer'),('send_canceled','src/binary/send.rs')])

p('B04','Closing succeeds only after signalling every peer and hearing Stop from each',
 "Closing a session (binary, three-party, n-party, timed or interleaved) sends one Stop on every session it holds before it waits for any peer, then waits for one signal from every session. It reports success only if every one of those signals was Stop; any other signal or a disconnected peer is an error or a panic. It never waits twice on one session or skips another.",
 ['schedules','histories','configurations'],'every close operation, every number of participants, every order in which peers close, every signal received',
 "All sampled runs end with every peer sending Stop, so a close that ignores the received signal, skips one peer or waits before signalling passes them (or deadlocks only under a particular arrangement).",
 ['src/binary/close.rs','src/functionmpst/close.rs','src/meshedchannels','mpst_seq_proc/src/common_functions/expand/close.rs','mpst_seq_proc/src/common_functions/expand/close_atmp.rs','mpst_seq_proc/src/interleaved/close_mpst_interleaved.rs','mpst_seq_proc/src/macros_multiple/multiple/close/close_mpst.rs','src/interleaved/close.rs'],
 [('close','src/binary/close.rs'),('close_mpst','src/functionmpst/close.rs'),('generated close','mpst_seq_proc/src/common_functions/expand/close*.rs'),('close_mpst_interleaved','src/interleaved/close.rs')])

p('B05','Session endpoints cannot be duplicated, leaked or forged',
 "No session endpoint, multiparty endpoint, role or participant-name token can be cloned or copied, every operation on an endpoint uses it up, and cancelling one drops every channel it holds so that its peers observe the disconnection. Library code never leaks an endpoint (no forgetting, leaking, wrapping in reference-counted or manually dropped storage) and contains no unsafe code that could forge one.",
 ['programs','histories'],'every program that uses the public API, every function of the library',
 "No run can show that a trait is not implemented or that no leak exists on an untested path.",
 ['src/binary/cancel.rs','src/binary/struct_trait','src/binary_atmp/struct_trait','src/meshedchannels/mod.rs','src/role','src/name','mpst_seq_proc/src/common_functions/expand/cancel.rs'],
 [('cancel','src/binary/cancel.rs'),('MeshedChannels::cancel','src/meshedchannels/mod.rs'),('ownership of channels in private or public fields','src/binary/struct_trait')])

p('B06','Forked participants run once each, and their failures reach the joiner',
 "Every fork function starts exactly one thread per participant (the binary fork: one thread, the caller being the other), each running that participant's own closure exactly once with its own endpoint. A participant whose closure returns an error or panics makes its thread's join return an error; no failure is swallowed, and a normal return is reported as success.",
 ['fault_sequences','configurations'],'every fork entry point (binary, timed, three-party, n-party macro and generated, interleaved), every participant that can fail',
 "Tests mostly fork participants that succeed and, when one fails, look at one position of one arity.",
 ['src/binary/fork.rs','src/binary_atmp/fork.rs','src/functionmpst/fork.rs','src/interleaved/fork.rs','src/transport/tcp/fork.rs','mpst_seq_proc/src/common_functions/expand/fork.rs','mpst_seq_proc/src/macros_multiple/multiple/fork_mpst_multi.rs','mpst_seq_proc/src/interleaved/fork_mpst_multi_solo.rs'],
 [('fork_with_thread_id','src/binary/fork.rs'),('fork_mpst','src/functionmpst/fork.rs'),('generated fork_mpst','mpst_seq_proc/src/common_functions/expand/fork.rs')])

p('B07','Selecting over sessions returns what one ready session sent, and removes only it',
 "Selecting over a list of receiving sessions returns a payload and continuation that were received from one of the listed sessions, and removes exactly that session from the list (the owned form returns all the others). An empty list is an error, and a session whose peer is gone yields an error instead of a payload.",
 ['schedules','inputs'],'every list, every order in which the peers send, every spurious wake-up',
 "Which session is ready first is a scheduling outcome; a wrong index only shows for particular readiness orders.",
 ['src/binary/select.rs'],[('select_mut / select','src/binary/select.rs')])

p('M01','Every pair of participants is joined by one private dual session, in its place',
 "Whenever endpoints for n participants are created together (forking n participants, broadcasting a new choice, or interleaving two protocols), every unordered pair of participants shares exactly one session: its two dual ends are held by these two participants, each in the slot that participant reserves for the other (slots are ordered by role), and by nobody else. Each participant's closure or message receives the endpoint of that participant.",
 ['configurations','programs'],'every number of participants, every choosing participant, every pair, in all fork functions and macros',
 "Wrong wiring between equally typed sessions compiles, and only shows for the arity, chooser and pair it affects; the tests use few arities with mostly distinct session types.",
 ['src/functionmpst/fork.rs','mpst_seq_proc/src/common_functions/maths.rs','mpst_seq_proc/src/common_functions/expand/aux_fork.rs','mpst_seq_proc/src/common_functions/expand/fork.rs','mpst_seq_proc/src/common_functions/expand/choose.rs','mpst_seq_proc/src/choose_mpst_multi_to_all.rs','mpst_seq_proc/src/choose_atmp_mpst_multi_to_all.rs','mpst_seq_proc/src/macros_multiple/multiple/fork_mpst_multi.rs','mpst_seq_proc/src/interleaved/fork_mpst_multi_solo.rs'],
 [('diag / matrix index maths','mpst_seq_proc/src/common_functions/maths.rs'),('create_new_channels / create_new_meshedchannels','mpst_seq_proc/src/common_functions/expand/aux_fork.rs'),('choose macros','mpst_seq_proc/src/choose_mpst_multi_to_all.rs')])

p('M02','A multiparty send or receive touches only the session of the named peer',
 "A multiparty send or receive, for every participant and every peer, transfers its payload on the session held with exactly the peer at the head of the participant's ordering stack. It leaves every other session, and the participant's name, as they were, and advances the stack by exactly one step.",
 ['programs','configurations'],'every participant, every peer, every arity; functions, methods, macros and generated methods',
 "Each pair (participant, peer) has its own hand-written or generated function; tests exercise a few of them, with session types that hide a swap of two equally typed untouched sessions.",
 ['src/functionmpst/send.rs','src/functionmpst/recv.rs','src/meshedchannels/impl_a.rs','src/meshedchannels/impl_b.rs','src/meshedchannels/impl_c.rs','mpst_seq_proc/src/functionmpst','mpst_seq_proc/src/common_functions/expand/send.rs','mpst_seq_proc/src/common_functions/expand/recv.rs','mpst_seq_proc/src/macros_simple','src/role'],
 [('send_aux_simple / recv_aux_simple','mpst_seq_proc/src/functionmpst'),('generated send / recv','mpst_seq_proc/src/common_functions/expand'),('continuation of the stack','src/role')])

p('M03','A multiparty choice informs every other participant, once, of the same branch',
 "Making a multiparty choice sends exactly one message to every other participant, on the chooser's existing session with that participant, and every message carries the branch that was asked for; then the chooser continues with its endpoint of that same branch and its old endpoint is released. With user-named branches, each participant gets the label given for that participant. Failure to deliver is handled as in the corresponding send.",
 ['configurations','programs','histories'],'every chooser, arity, branch, and choice operation (binary left/right, recursive to-all, affine, timed, created macros)',
 "A choice that informs all but one participant, or informs one of the other side, needs that participant, arity and side to be exercised together.",
 ['src/functionmpst/choose.rs','src/functionmpst/recursion/choose.rs','src/meshedchannels','mpst_seq_proc/src/common_functions/expand/choose.rs','mpst_seq_proc/src/choose_mpst_multi_to_all.rs','mpst_seq_proc/src/choose_atmp_mpst_multi_to_all.rs','mpst_seq_proc/src/macros_multiple/multiple/choose'],
 [('choose_mpst_*_to_all','src/functionmpst/choose.rs'),('generated choose_left / choose_right','mpst_seq_proc/src/common_functions/expand/choose.rs')])

p('M04','An offer runs exactly the branch that was received, on the received endpoint',
 "Offering receives one choice from the participant that makes it and runs exactly one continuation, the one of the branch that arrived (left runs the first, right the second; a named branch runs its own arm), on the endpoint that arrived with it, and returns that continuation's result. The other continuation does not run, and the used-up endpoint is released.",
 ['programs','histories','configurations'],'every offering participant, every chooser, every arity, every offer operation',
 "Both continuations of an offer usually have the same type, so running the wrong one compiles; each (participant, chooser) has its own function.",
 ['src/binary/offer.rs','src/binary_atmp/offer.rs','src/functionmpst/offer.rs','src/functionmpst/recursion/offer.rs','src/meshedchannels','mpst_seq_proc/src/common_functions/expand/offer.rs','mpst_seq_proc/src/macros_simple/offer'],
 [('offer_either','src/binary/offer.rs'),('offer_mpst_session_*','src/functionmpst/offer.rs'),('generated offer','mpst_seq_proc/src/common_functions/expand/offer.rs')])

p('M05','A program that departs from its protocol does not compile',
 "A participant that sends instead of receiving, talks to another peer than its stack says, sends another payload type, closes early, reuses or keeps using a consumed endpoint, treats one participant's endpoint as another's, or is forked together with participants whose sessions are not dual, is rejected by the compiler. The same program without the departure is accepted.",
 ['programs'],'every program against the public API of the binary, timed, three-party and generated layers',
 "A test that compiles cannot show what fails to compile.",
 ['src/binary','src/binary_atmp','src/functionmpst','src/meshedchannels','src/role','src/name','mpst_seq_proc/src/common_functions/expand'],
 [('session typestate','src/binary/struct_trait'),('Dual: Session<Dual = Self>','src/binary/struct_trait/session.rs'),('impl blocks indexed by stack and name','src/meshedchannels')])

p('C01','Cancellation-aware sends detect cancellation and never report success on it',
 "The cancellation-aware multiparty send first looks, without blocking, at the broadcaster's session: if a cancellation is there it drops its sessions and fails, and otherwise it sends and fails if the receiver is gone. The explicit cancelling send tells the broadcaster before it drops its sessions and then always fails.",
 ['schedules','fault_sequences','configurations'],'every participant, receiver and arity, and every moment at which a cancellation can arrive',
 "The tests cancel at a few fixed points of a few protocols.",
 ['mpst_seq_proc/src/macros_multiple/multiple/send','src/macros_multiple/send.rs','src/macros_multiple/cancel.rs'],
 [('create_send_check_cancel','mpst_seq_proc/src/macros_multiple/multiple/send/create_send_check_cancel.rs'),('send_cancel','mpst_seq_proc/src/macros_multiple/multiple/send/send_cancel.rs')])

p('C02','The cancellation broadcaster relays a cancellation to every participant',
 "The broadcasting participant polls every session it holds; when one of them reports a cancellation it forwards the cancellation on every session, drops all its sessions and panics; a participant that is gone without a signal while still watched is treated in the same way. A participant's Stop is answered on that same session and ends the watch over that session only, and the broadcaster returns success only after every participant has stopped.",
 ['schedules','fault_sequences','configurations'],'every participant that may cancel or stop, in every order, for every arity',
 "Tests sample one canceller in a few arities; relaying to all but one participant is invisible unless that participant happens to need it.",
 ['mpst_seq_proc/src/macros_multiple/multiple/broadcast_cancel.rs','src/macros_multiple/cancel.rs'],
 [('broadcast_cancel','mpst_seq_proc/src/macros_multiple/multiple/broadcast_cancel.rs')])

p('C03','Affine closes fail when a peer cancelled',
 "The closing operations of the cancellation-aware layer send one Stop to every peer before waiting, and wait for every peer. The checking form panics, after dropping its sessions, when any peer's signal is a cancellation or any peer is gone; the plain affine form fails when any peer is gone.",
 ['schedules','fault_sequences','configurations'],'every peer that may cancel, every arity',
 "Only clean closes and one cancelling peer are sampled.",
 ['mpst_seq_proc/src/macros_multiple/multiple/close/close_mpst_cancel.rs','mpst_seq_proc/src/macros_multiple/multiple/close/close_mpst_check_cancel.rs','src/macros_multiple/close.rs'],
 [('close_mpst_cancel','mpst_seq_proc/src/macros_multiple/multiple/close/close_mpst_cancel.rs'),('close_mpst_check_cancel','mpst_seq_proc/src/macros_multiple/multiple/close/close_mpst_check_cancel.rs')])

p('T01','Timed operations happen only inside their declared time window',
 "A timed send or receive transfers its payload only if the elapsed time of its declared clock, in whole seconds, lies within its declared bounds, with each bound inclusive or exclusive as declared and a negative bound meaning no bound on that side; outside the window, or if the clock does not exist, it fails and transfers nothing. Sends and receives, including the sends made by a timed choice, apply the same test.",
 ['inputs','schedules','configurations'],'every combination of bounds, inclusion flags and elapsed time, for sends and receives',
 "About a hundred tests sample particular constants and elapsed times; the bounds, flags and elapsed time range over far more orderings than these.",
 ['src/binary_atmp/send.rs','src/binary_atmp/recv.rs'],
 [('window tests in send / send_without_reset','src/binary_atmp/send.rs'),('window tests in recv','src/binary_atmp/recv.rs')])

p('T02','A timed operation with an upper bound never waits past it',
 "When a timed operation has an upper bound it waits for its peer at most until that bound on its declared clock (the bound minus the time already elapsed), and running out of that time is a failure. Only an operation without an upper bound may wait without limit.",
 ['schedules','inputs'],'every window, every elapsed time at the start of the operation, every delay of the peer',
 "Tests check that a late peer fails for a few windows, not that the remaining time is computed from the elapsed time in every branch.",
 ['src/binary_atmp/send.rs','src/binary_atmp/recv.rs'],
 [('send_timeout / recv_timeout arguments','src/binary_atmp')])

p('T03','A clock is reset exactly when a declared reset follows a successful operation',
 "After a timed operation succeeds, exactly the clock named as its reset is set to the present, and nothing is reset when no reset is declared. A failed operation resets no clock and reports failure, a missing reset clock is a failure, and no operation touches a clock it does not name as its reset.",
 ['inputs','fault_sequences','configurations'],'every branch of every timed operation, every reset declaration',
 "A branch that resets the measured clock instead of the named one, or resets before it succeeds, shows only with particular clock names and bounds.",
 ['src/binary_atmp/send.rs','src/binary_atmp/recv.rs'],
 [('reset blocks','src/binary_atmp/send.rs and recv.rs')])

p('T04','Timed session types are dual and carry their declared constraint unchanged',
 "The dual of a timed send is the timed receive with the same payload, clock, bounds, inclusion flags and reset, and vice versa, and duality is an involution. The endpoints created for them carry exactly the declared clock, bounds, flags and reset, and the textual constraint they report is the one declared.",
 ['programs','inputs'],'every timed session type',
 "Swapped or dropped constants of equal type compile, and only show for types in which the two constants differ.",
 ['src/binary_atmp/struct_trait/send.rs','src/binary_atmp/struct_trait/recv.rs'],
 [('impl Session for SendTimed / RecvTimed','src/binary_atmp/struct_trait'),('constraint()','src/binary_atmp/struct_trait')])

p('T05','A timed choice is sent under one set of clocks, and resets them after all sends',
 "A timed multiparty choice sends the branch to every other participant, each under that session's own time constraint, without resetting any clock between these sends. It stops with a failure at the first send that fails; once all are sent it resets every clock that was declared as a reset by one of them, and no other clock.",
 ['configurations','inputs','fault_sequences'],'every chooser, arity and reset declaration',
 "Tests use choices with no or one reset clock.",
 ['mpst_seq_proc/src/choose_atmp_mpst_multi_to_all.rs','src/binary_atmp/send.rs','src/baking_atmp/choose.rs','mpst_seq_proc/src/common_functions/expand/choose.rs'],
 [('choose_atmp_mpst_multi_to_all','mpst_seq_proc/src/choose_atmp_mpst_multi_to_all.rs'),('send_without_reset','src/binary_atmp/send.rs')])

p('N01','The top-down generator gives both partners of a message the same interaction',
 "For every message of a timed global protocol the generator emits one timed send for the sender towards the receiver and one timed receive for the receiver from the sender, with the same message type, clock, bounds, inclusion flags and reset as written in the protocol (a square bracket turned inwards is inclusive). It appends one step to the ordering of exactly these two roles, each naming the other, and chains every emitted type to the next one emitted for that pair or role. Every well-formed line is recognised as what it is, with the names, bounds and clocks as written, whatever their length and the blanks between them.",
 ['inputs'],'every protocol description',
 "Four protocol files are compared with stored output; the emitted text depends on values the four files do not vary (exclusive bounds, distinct reset clocks, several roles).",
 ['src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update','src/top_down_nuscr/auxiliary_objects/line_is_message.rs','src/top_down_nuscr/auxiliary_objects/process_line.rs'],
 [('sender_messages / receiver_messages','src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update'),('sender_stacks / receiver_stacks','src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update')])

p('N02','The top-down generator rejects ill-formed timed protocols and accepts sound ones',
 "A message between undeclared roles or from a role to itself, a time interval whose left bound is greater than its right bound as numbers, consecutive intervals on one clock that cannot both be met, unbalanced brackets, and a jump to an undeclared loop are all reported as errors and no code is emitted for them. Intervals are compared as numbers and a clock that was reset places no demand on the next interval, so a sound protocol is not rejected on account of its bounds.",
 ['inputs'],'every protocol description',
 "Two faulty files and four sound ones are sampled, all with bounds of one digit.",
 ['src/top_down_nuscr/auxiliary_objects/line_is_message.rs','src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs','src/top_down_nuscr/auxiliary_objects/process_line.rs','src/top_down_nuscr/generator.rs'],
 [('update_messages','src/top_down_nuscr/auxiliary_objects/line_is_message.rs'),('fn_previous_message_wrt_clocks','src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs')])

p('N03','The generated file contains every step, choice and participant that was read',
 "When the generator succeeds, its output declares every collected session type and ordering type exactly once, closes exactly the chains that end (End for a pair, RoleEnd for a role), gives every informed participant of every choice one enum with one variant per branch, in order, holding that participant's endpoint of that branch, and every participant one endpoint type per part of the protocol that lists its first session with each other participant, in the order of the participants, then its first ordering and its own name. Every message and payload type is declared once. Every participant has a function per part that takes its own endpoint and starts the clocks it uses, and the participants are forked in the order for which the channels are generated. A write that fails is reported, never success.",
 ['inputs','fault_sequences'],'every protocol description and every point at which writing may fail',
 "Four generated files are produced; none has a choice within a choice within a choice, pairs that exchange nothing, participants sharing a clock name, or a failing disk.",
 ['src/top_down_nuscr/auxiliary_objects/code_generate','src/top_down_nuscr/generator.rs'],
 [('generate_sessions / generate_stacks / generate_enums / generate_endpoints','src/top_down_nuscr/auxiliary_objects/code_generate'),('generate_structs / generate_fn_endpoints / generate_fn_main / generate_imports','src/top_down_nuscr/auxiliary_objects/code_generate')])

p('K01','The exported automata describe the checked session types',
 "In the graph and in the communicating automaton produced for a participant, each step of the type yields one transition from the current state to a new one: a send is labelled as a send to, and a receive as a receive from, the peer at the head of the stack, with the payload of the session held with that peer. After the transition only that session and the stack have advanced. A choice continues each of its branches, the offered types at a receiver and the dual of what each peer is given at the chooser, from the state where the choice is made; a branch taken before leads back to the state where it was first taken, in the automaton by redirecting the transition that led to the current state. The automata are written one per role, in the order that numbers the peers in their lines. The dual of a session used for the chooser's own branches swaps every send with a receive and keeps payloads and order. Payloads and participants are those of the type itself: a payload of several components (a tuple, an array, a generic type) stays one payload, whatever modules its types live in, and a participant is read under its whole name. checker_concat! and checker_concat_impl! hand the checker the types, the branches and the file name that the call names: each branch with the participant type it stands for, at the receiver it belongs to, under the choice it belongs to.",
 ['programs','inputs'],'every participant type given to the bottom-up checker whose payloads are named or generic types, tuples, arrays, slices or references (names beginning with Name being kept for participants)',
 "Graphs of a few protocols are compared; labels depend on role order, peer index and payload that these do not all vary.",
 ['src/checking/aux_checker.rs','src/checking/mod.rs','mpst_seq_proc/src/checking'],
 [('checker_concat! / checker_concat_impl!','mpst_seq_proc/src/checking'),('aux_get_graph','src/checking/aux_checker.rs'),('checker','src/checking/mod.rs'),('build_dual','src/checking/aux_checker.rs'),('get_graph_session','src/checking/aux_checker.rs')])

p('K02','The checker reports a bound k only if the external tool accepted that k',
 "When a file name is given, the checker asks the external tool about k = 1, 2, ... in order up to 50 and returns the first k for which the tool did not answer negatively. It returns no bound exactly when the tool rejected all of them, and a failure to run the tool is an error.",
 ['inputs','fault_sequences'],'every sequence of answers of the external tool',
 "The external tool is not available to the tests, and the interesting answers (accepting only the last k) are rare.",
 ['src/checking/mod.rs'],[('checker','src/checking/mod.rs'),('kmc_cli','src/checking/mod.rs')])

p('R01','The TCP and UDP layers keep the guarantees of the in-memory layer',
 "Over TCP and UDP, a send transmits the given payload with one end of a fresh continuation on the session and the given bytes on the socket, once each, and a receive returns what the session and the socket delivered. A choice transmits the asked branch and an offer runs the branch received. A close sends Stop before it waits and succeeds only when the peer's signal is Stop, and a cancellation drops the session. A send, receive, close or fork whose socket or session operation failed reports it (an error or a panic) and never success.",
 ['inputs','fault_sequences','histories'],'every operation of the TCP and UDP layers, every failure of socket or peer',
 "No test runs these layers.",
 ['src/transport/tcp','src/transport/udp'],
 [('send_tcp / recv_tcp / close_tcp / offer_tcp / choose_tcp / fork_tcp','src/transport/tcp'),('UDP siblings','src/transport/udp')])

p('B08','Attempting a sequence of steps stops at the first failure and recovers once',
 "The attempt construct runs its steps in the order written and stops at the first step that fails: no later step is evaluated. Its recovery block runs exactly once, with the error of that step, when a step fails, and not at all when every step succeeds.",
 ['programs','fault_sequences'],'every sequence of steps and every step that can fail',
 "Only one or two blocks are sampled.",
 ['src/attempt.rs'],[('attempt!','src/attempt.rs')])

p('M06','Stack and name tokens always agree with their dual',
 "For every role token, its dual is the matching dual token over the duals of its continuations, duality is an involution, and taking the continuation of a token yields a token of exactly the declared continuation (left for left, right for right). Broadcast and end tokens are self-dual or dual to each other as declared, and creating a token or taking its continuation never blocks or fails, even when nobody holds the dual.",
 ['programs','schedules'],'every role token of the library and every one generated for named participants',
 "Tests check a handful of hand-written tokens; the generated ones of other names and arities are checked by none.",
 ['src/role','src/name','mpst_seq_proc/src/common_functions/expand/role.rs','mpst_seq_proc/src/common_functions/expand/role_atmp.rs','mpst_seq_proc/src/common_functions/expand/name.rs','mpst_seq_proc/src/macros_simple/roles'],
 [('Role::new / continuation','src/role'),('generated roles','mpst_seq_proc/src/common_functions/expand/role.rs')])

# not claimed
p('X01','Well-typed protocols make global progress',
 "Participants forked from a compatible global protocol never deadlock: every participant that has not finished eventually performs its next operation.",
 ['schedules','programs'],'every protocol, every schedule',
 "Progress quantifies over all schedules of user-written participants and over the interleaving of several sessions.",
 ['src/functionmpst','src/interleaved'],[('stack ordering','src/role')])
p('X02','Time constraints are met within the precision of the real clock',
 "A timed operation that is ready inside its window completes inside it in real time, and elapsed times below one second are accounted for.",
 ['schedules'],'every delay of the operating system and every sub-second elapsed time',
 "Real time is not controllable in the tests.",
 ['src/binary_atmp'],[('Instant::elapsed','src/binary_atmp/send.rs')])
p('X03','Generated code for a whole protocol compiles and follows the global protocol',
 "For every accepted timed global protocol, the complete generated file compiles, and its endpoint types are the projections of the global protocol, including choices and recursion.",
 ['inputs'],'every protocol description',
 "Only four files are sampled.",
 ['src/top_down_nuscr'],[('generator','src/top_down_nuscr/generator.rs')])
with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P:
    jsonschema.validate(d,S)
    n=d['statement'].count('. ')+1
    if n>3 or len(d['title'])>80: print(d['id'],n,len(d['title']))
print(len(P))
