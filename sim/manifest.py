import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
na={
"C12":"A statement about the decoding of every conforming message, with no fault, schedule, clock, I/O or other party it depends on: one pure function of one input. Simulation adds nothing there to plain input generation; the part of it that does depend on an environment - intact messages amid faults, loss and earlier failures - is C11, which is claimed.",
"C15":"Arithmetic on one 64-bit value: no schedule, time source, I/O or other party is involved (the wall clock is never read), so there is nothing to inject or schedule.",
"C16":"A conversion of one value into one target type: no environment, so there is nothing to inject or schedule.",
}
notes={p['id']:p for p in props}
lv="Seeded search over simulated runs of the real crate (no stub of it; nom, serde and rust_decimal are real too): the channel, the medium, the consumers, the tasks, the allocator, the hash keys and the clock are simulated. It can miss a violation that no explored run contains. "
per={
"C01":"Every cut position of each message is tried (each prefix of messages up to some kilobytes), so it is exhaustive per message over truncation and sampled over messages.",
"C02":"Trailing bytes of every value, coalesced, stale and random tails on sampled messages.",
"C03":"Sampled damage; a crash is any panic, stack overflow on 2 MiB or signal, a stall is exceeding a step budget proportional to the size of the message. Depth of nesting is limited to 200: beyond about 1000 levels the recursion of the parser overflows the stack, which is a recorded finding.",
"C04":"Peak allocation of parsing and deserialising is bounded by a constant plus a multiple of the bytes received and of the nulls they can legitimately declare.",
"C05":"Preemption at any basic-block edge of the crate, seeded; tasks run one at a time (sequential consistency), so weak-memory effects are outside.",
"C06":"Hash keys are decided by the simulator (interposed getrandom); every episode is run under several keys.",
"C07":"Every callback of a consumer is a point of failure, panic or early stop; sampled messages.",
"C08":"Judged only for damage that is certain to break a rule of the format, as constructed; damage that merely may is not judged.",
"C09":"Damage confined to the value of a field must change that value only; judged against the reference encoder.",
"C10":"Live bytes after every round, all allocations of the crate counted; growth over rounds with varied content.",
"C13":"Addresses of all strings against the buffer of the delivery, which is freed afterwards (freed memory is poisoned); what is allocated while a long text is parsed is bounded by half its length.",
"C14":"The crate is compiled a second time from /repo's sources without the feature; its dependencies are compiled once for both, so a difference inside rust_decimal's own serde feature would not show.",
"C17":"Content as read through the public fields is compared with the verdict of ==; no claim for NaN, for decimals that differ in scale only, and for date-times that differ in kind bits only.",
"C18":"Outcomes of the two ways are compared with each other, not with a model; the text of a deserialisation error is compared only where no object has several members (their order is random).",
"C11":"Exact decoded value against the reference sender's model, among damaged messages, interruptions and other tasks.",
}
checks=[]
for p in props:
    i=p['id']
    if i in na: continue
    checks.append({"property":i,"quick_cmd":f"./check {i} quick","thorough_cmd":f"./check {i} thorough","technique":"deterministic simulation with fault injection (seeded schedules and faults, reference model, minimised replay)","level":"exploration","level_note":lv+per[i]})
m={"version":1,"setup_cmd":"./check build","hooks":{"guard":"none: no hook in /repo was needed (the seams are the serde traits, the global allocator, interposed libc calls and compiler-inserted edge callbacks, all from outside)","enable":"RUSTC_WRAPPER=/verif/sim/rustc-wrap.sh instruments the crate while building it from /repo","source_commits":[]},
"checks":checks,"not_applicable":[{"property":k,"reason":v} for k,v in na.items()],
"notes":"./check replay FILE reproduces a violation; ./check selftest checks the determinism of the simulator."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
