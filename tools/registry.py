"""Which property is decided by which check."""
import m_proc
COMMON = ["interleavings are explored at synchronisation operations, atomics and sampled plain heap accesses; memory is sequentially consistent",
          "clang 18, libstdc++ 13, Linux; time is virtual; TLC explores what the bounds of the programs allow"]
ASSUMPTIONS = {}
CHECKS, TECHNIQUE, NOTE, NA = {}, {}, {}, {}

def claim(props, fn, technique, note):
    for p in props:
        CHECKS[p] = (lambda ctx, p=p: fn(ctx, p))
        TECHNIQUE[p] = technique
        NOTE[p] = note

claim(("C01", "C02", "C03", "C04", "C10"), m_proc.check,
      "TLA+ specification (Proc.tla) model-checked with TLC; trace validation of scheduled executions of the real code",
      "The specification satisfies its invariants for all behaviours of the listed programs (exhaustive); the real code is "
      "bound to it by TLC trace validation of executions of fixed and random programs under random and PCT schedules with "
      "virtual time. Trusts the scheduler runtime (rt/) and sequentially consistent memory; bounded programs and schedules.")
import m_queue
STD = ("; the specification satisfies its invariants for all behaviours of the listed programs, and executions of the real code "
       "for fixed and random programs under random and PCT schedules (virtual time) are validated against it by TLC. "
       "Trusts the scheduler runtime (rt/) and sequentially consistent memory; bounded programs and schedules.")
TECH = "TLA+ specification (%s.tla) model-checked with TLC; trace validation of executions of the real code"
claim(("C20",), m_queue.check, TECH % "Queue", "Blocking queues as atomic operations with blocking pops" + STD)
import m_signal
claim(("C06", "C07", "C08"), m_signal.check, TECH % "Signal", "Signals, slots and connections" + STD)
import m_router
claim(("C05",), m_router.check, TECH % "Router", "Routing table, notices and routed messages" + STD)
import m_obs
claim(("C09",), m_obs.check, TECH % "Obs", "Observables, joins and their observers" + STD)
import m_cs
claim(("C11", "C12", "C13", "C14", "C15"), m_cs.check, TECH % "CS", "Services, requests, properties, signals and availability within a process" + STD)
import m_pool
claim(("C19",), m_pool.check, TECH % "Pool", "Thread pools of the three kinds" + STD)
import m_timer
claim(("C18",), m_timer.check, TECH % "Timer", "Timers of processors, signal timers and synchronous timers" + STD)
import m_serial
claim(("C21",), m_serial.check,
      "TLA+ specification (Serial.tla) of encoding and decoding, model-checked with TLC over values enumerated for every shape; "
      "these and random values are replayed in the real code, whose bytes, sizes and reads of every prefix TLC validates",
      "The specification satisfies its own invariants for the enumerated values; the real code is bound to it for these, random "
      "and long values, several stream kinds and all truncation points, under the address and undefined-behaviour sanitizers. "
      "57 shapes; no corrupted (only truncated) data.")
import m_keys
claim(("C22",), m_keys.check, TECH % "Keys", "Identifier managers; order and equality of addresses and registration ids, sets and maps of them" + STD)
import m_sock
claim(("C17",), m_sock.check, TECH % "Sock", "Buffers over local sockets, with short reads and writes and peers that stop anywhere" + STD)
