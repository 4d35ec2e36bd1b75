"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json
NOTES = {
 "C01": "builds under crashes, cancellations, store errors before and after the write, signer failures, incomplete and contradictory parameters; store contents compared with a shadow of every applied write",
 "C02": "duplicated, late and repeated fetches and submissions on several instances with crashes; every applied write and every poll compared with the session's status history",
 "C03": "submissions under duplication, retries, crashes, cancellation and store errors, with validators of random duration and verdict; every recorded outcome traced to a verdict",
 "C04": "fetches in and out of turn, before and after completion and removal, under store errors and crashes; returned bytes compared with what was stored",
 "C05": "many sessions over several services and instances with strangers, unknown, foreign and removed ids; after every call all sessions compared with the shadow",
 "C06": "an attacker replaces and forges request objects by value and by reference; every acceptance re-judged by an independent verifier that knows what the resolver answered",
 "C07": "requests with every kind of prefix, altered outer and inner client ids, wallets with random supported lists, refusing and missing checks; calls of the checks recorded and compared",
 "C08": "fetches under loss, timeouts, replaced statuses, corrupted, truncated and mistyped bodies; what was sent and what was accepted compared with an independent reading of what arrived",
 "C09": "submissions under loss, replaced statuses, odd bodies, wrong kinds of response and every response mode; requests on the wire and reported results compared with what the server answered",
 "C10": "responses of any text and JSON content travel over the simulated network; what the validator sees compared with what the wallet was told to submit",
 "C11": "random defaults and parameters, queries and wallets; issued, stored and accepted requests compared with an independent merge of the parameters; honest requests must be accepted",
 "C12": "random client metadata against random wallet restrictions; acceptance and refusal compared with an independent negotiation rule",
 "C13": "real threads on the real MemoryStore, run one at a time and preempted at chosen allocator calls (also inside the lock), with cancellation; histories checked for linearizability",
 "C14": "transcripts derived on both sides of every exchange compared with an independent CBOR encoding, and with each other across all exchanges of a run",
 "C15": "after faults stop every pending presentation must complete by retries within three tries; stuck calls, panics and runaway schedules are violations",
 "C16": "every issued request verified independently of the library; client set-up under resolver faults, wrong keys and certificates; restarts",
 "C17": "wallets encrypt with the library's builder to requests with any keys, and verifiers open what arrives with their private keys, over a network with loss, duplication, retries and crashes; josekit itself is a stand-in (it cannot be fetched here), so this is about which key, algorithms and content the library chooses, not about the cipher",
 "C18": "the real client, hyper and tokio on socket pairs under a single-threaded runtime with simulated time; concurrent calls, reused connections, fragments, refused, closed and cut connections, cut and garbled answers, slow servers, abandoned calls; both ends' views compared",
 "C20": "stores that keep only the serialised rows of a session, under crashes and restarts; everything read back compared with a shadow of what was written, and every later call checked on it",
 "C21": "authentic and forged requests re-addressed to other hosts, ports, paths and wallets; the wallet must neither fetch, check nor accept them",
 "C23": "wallets with metadata made in every way and extended during the run, metadata sent to verifiers, client metadata in requests; every copy compared, accessor by accessor, with a model of the document",
 "C24": "an attacker with identities of its own sends bent request objects, URLs, certificates, keys, answers, form bodies, metadata and status documents to wallets and verifiers while honest presentations run; panics, calls that never end and honest presentations that no longer complete are violations",
 "C25": "verifier instances draw nonces of all lengths from simulated random sources, over restarts, pauses and clock jumps; length, alphabet, freshness, dependence on the source alone and distribution are checked",
 "C22": "signers, validators and store operations that stall, fail and are cancelled while other calls run; every call's simulated duration compared with what its own services took",
}
props = [json.loads(l) for l in open("properties.jsonl")]
NA = {
 "C19": "Stand-alone parsing and serialising is a pure function of one input with no schedule, fault or history to depend on. What parties exchange through it is covered inside C10, C11, C12, C14, C20 and C23.",
}
m = {
 "version": 1,
 "setup_cmd": "bash run.sh build",
 "checks": [
  {
   "property": p["id"],
   "quick_cmd": f"bash run.sh check {p['id']} quick",
   "thorough_cmd": f"bash run.sh check {p['id']} thorough",
   "evidence_file": f"evidence/{p['id']}.json",
   "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and workloads",
   "level": "exploration",
   "level_note": NOTES[p["id"]] + ". Sampled, not exhaustive: it shows the absence of violations only on the executions that were run. Trusts the simulator, the reference oracles, and the cryptography and parsing crates underneath.",
  }
  for p in props if p["id"] not in NA
 ],
 "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
 "notes": "No hooks in /repo: the code's own seams (SessionStore, RequestSigner, JWKResolver, AsyncHttpClient, RequestVerifier, Client, the validator callback) carry the simulation; randomness, clocks, futex waits and allocator calls are intercepted at link level in the simulator. Replay: bash run.sh replay FILE.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
