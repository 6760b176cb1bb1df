# which harness decides which property, and how it is described in the evidence
SRV = ("mc", "h_server.c")
HIST = ("mc", "h_hist.c")
DSP = ("seq", "h_dsp.c")
MODEM = ("seq", "h_modem.c")
TABLE = {
    "C01": [("mc", "h_queue.c"), SRV],
    "C02": [SRV], "C03": [SRV, HIST], "C04": [SRV, HIST], "C05": [HIST, SRV], "C06": [SRV, HIST], "C07": [SRV, HIST], "C08": [SRV, HIST], "C09": [SRV, HIST], "C10": [HIST, SRV], "C11": [HIST, SRV, ("seq", "h_pluto.c")], "C16": [SRV, HIST],
    "C23": [SRV, ("seq", "h_list.c"), ("seq", "h_wire.c"), ("seq", "h_conf.c"), ("seq", "h_file.c"), ("seq", "h_pluto.c"), ("seq", "h_doppler.c")],
    "C17": [("seq", "h_pluto.c"), HIST, SRV], "C18": [("seq", "h_file.c"), SRV, HIST], "C19": [("seq", "h_conf.c"), SRV], "C20": [("seq", "h_list.c")], "C24": [("seq", "h_wire.c")], "C21": [("seq", "h_tle.c"), HIST], "C15": [("seq", "h_doppler.c"), ("seq", "h_tle.c"), HIST, SRV],
    "C12": [DSP, MODEM, HIST], "C13": [DSP, MODEM], "C14": [DSP, MODEM, ("seq", "h_doppler.c"), HIST], "C22": [MODEM, HIST],
}
MC_RULE = ("every schedule and every environment answer (read sizes, timeouts, failing calls, client choices) within the deviation bound "
           "of the scenario, for each listed default scheduling policy; states that are equal by their happens-before hash are explored once")
MC_ASSUME = ["operating system calls are answered by the simulator in mc/mcsim.c (sockets, files, threads, time); its answers are the ones POSIX permits, restricted as each scenario says",
             "scheduling points are the synchronisation and system calls; conflicting plain accesses in between are found by the happens-before race monitor",
             "volk kernels are replaced by scalar ones of the same definition"]
SEQ_RULE = ("every sequence of the decisions listed per scenario (operations, buffer lengths, cuts, contents, configurations, failing calls), "
            "depth first without sampling, each executed on the real code")
SEQ_ASSUME = ["the code runs in one thread with address and undefined behaviour instrumentation; allocations, files and the clock are answered by seq/seqrt.c",
              "volk kernels are replaced by scalar ones of the same definition that check the alignment of their operands",
              "sample values are taken from fixed data-like and extreme signals; lengths, cuts and configurations are the enumerated dimensions"]
NOTES = {"*": {"assumptions": []}}
for p in TABLE:
    eng = {e for e, *_ in TABLE[p]}
    NOTES[p] = {"rule": "; ".join(r for e, r in (("mc", MC_RULE), ("seq", SEQ_RULE)) if e in eng), "assumptions": (MC_ASSUME if "mc" in eng else []) + (SEQ_ASSUME if "seq" in eng else [])}
_SRV = "complete server code under a controlled scheduler and simulated sockets/files; deviation bounds per scenario (quick 1..2, thorough up to 3) over several default policies; trusts mc/mcrt.c, mc/mcsim.c"
_SEQ = "real code executed for every sequence of the enumerated decisions (bounds per scenario in the evidence); trusts seq/seqrt.c and the references in ref/"
# property -> (technique, level_note)
CLAIMS = {
    "C01": ("stateless model checking of the real queue under all interleavings, alone and inside the running server",
            "complete state space for one producer, one consumer, one interrupter and queue sizes 1..3, deviation bounds in the server; trusts the scheduler/simulator in mc/"),
    "C02": ("stateless model checking of the real server with memory, race and descriptor monitors", _SRV),
    "C03": ("stateless model checking of the real server with deadlock and bounded termination detection", _SRV),
    "C04": ("stateless model checking of the real server; every client checks its byte stream", _SRV),
    "C05": ("exhaustive enumeration of requests (all pairs of field values, all cuts, all single byte changes, headers) on the real server, and stateless model checking of invalid requests beside a session",
            "answers compared with an independent statement of what is supported and an independent decoder; trusts mc/mcrt.c, mc/mcsim.c, ref/fakeiio.h"),
    "C06": ("stateless model checking of competing and successive transmit and receive owners", _SRV),
    "C07": ("stateless model checking of two receivers that join and leave one SDR stream", _SRV),
    "C08": ("stateless model checking of receive sessions; outputs compared with the delivered samples", _SRV),
    "C09": ("stateless model checking of transmit sessions with faults; device samples compared with a reference modulation", _SRV),
    "C10": ("stateless model checking of the message layer with every cut, delay and interruption of the byte stream", _SRV),
    "C11": ("stateless model checking of sessions with injected failures and resource accounting", _SRV),
    "C16": ("stateless model checking of the SDR server client against scripted server behaviours", _SRV),
    "C12": ("exhaustive enumeration of buffer cuttings on the real code, compared with the uncut stream", _SEQ),
    "C13": ("exhaustive enumeration of block configurations, lengths and histories on the real code, compared with independent definitions", _SEQ),
    "C14": ("exhaustive enumeration of boundary configurations and buffer lengths on the real code and of requests to the real server under memory and arithmetic monitors", _SEQ),
    "C17": ("exhaustive enumeration of radio set-ups, failing calls, buffer sequences and session histories against a model of the radio", _SEQ),
    "C18": ("exhaustive enumeration of file contents, buffer lengths, stop points and failing file operations on the real code", _SEQ),
    "C19": ("exhaustive enumeration of configuration files (all pairs of setting values, all cuts) against a table of the documented settings; stateless model checking of the running program under combinations of settings", _SEQ),
    "C20": ("exhaustive enumeration of operation histories on the real registry against a sequence", _SEQ),
    "C24": ("exhaustive enumeration of encodings of requests and answers against an independent encoder and decoder", _SEQ),
    "C15": ("exhaustive enumeration of orbits, stations, times, directions and buffer cuttings on the real code, compared with an independent orbit computation; stateless model checking of corrected sessions in the server", _SEQ),
    "C21": ("exhaustive enumeration of changed, cut and exchanged element lines and of field values on the real decoder, compared with an independent decoder; enumeration of requests with bad elements on the real server", _SEQ),
    "C22": ("exhaustive enumeration of bit patterns, configurations and cuttings through the real modulator and demodulator, directly and through sessions of the real server", _SEQ),
    "C23": ("stateless model checking with every single allocation failing", _SRV),
}
