#!/usr/bin/env python3
# Regenerates properties.jsonl (kept as code so that the statements are easy to review).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [observe]}})

p("C01", "The sample hand-off queue is a bounded FIFO that never loses order or hangs",
  "Between one producer and one consumer, every buffer taken was put, unmodified, at most once and in put order; a blocking queue loses nothing and makes the producer wait when full, a non-blocking queue never makes the producer wait and gives up at most one waiting buffer for each put into a full queue. After the queue is interrupted every blocked side returns, buffers already queued are still delivered to the consumer, and then the consumer is told that the stream ended. A buffer being read by the consumer is never overwritten before it is released.",
  ["schedules", "histories", "configurations"],
  "All interleavings of a producer, a consumer and an interrupting thread, for queue sizes 1..3, both modes, and all short operation sequences including empty and too large buffers.",
  "test_queue.c runs a handful of fixed sequences with one incidental schedule; wakeup loss, overwriting of a detached buffer and termination depend on the interleaving.",
  ["src/queue.c", "src/dsp_worker.c", "src/sdr_worker.c"],
  [("bounded queue with one detached node", "src/queue.c queue_put, take_buffer_for_processing, complete_buffer_processing"), ("termination", "src/queue.c interrupt_waiting_the_data, destroy_queue")],
  "return values and buffer contents of queue operations; bytes that reach the client")
p("C02", "No client, SDR or timing behaviour crashes the server or corrupts its memory",
  "Whatever any number of clients and the SDR side send, in whatever order and timing and including disconnects at any moment, the server process never crashes, never accesses freed or out-of-bounds memory, never uses a file descriptor it has already given back, and has no unsynchronised conflicting accesses to shared state. It keeps serving new clients afterwards.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings (up to a deviation bound) of acceptor, client, signal processing and SDR threads with scripted clients that connect, send valid or invalid requests, disconnect at any step, share an SDR, and with server stop at any step.",
  "test_tcp_server.c drives sequential clients with sleeps; it reaches one schedule per scenario and cannot see a use after free or a reused descriptor that needs a particular interleaving.",
  ["src/tcp_server.c", "src/dsp_worker.c", "src/sdr_worker.c", "src/linked_list.c", "src/queue.c", "src/sdr/sdr_server_client.c"],
  [("per client thread life cycle", "src/tcp_server.c tcp_worker_callback, cleanup_terminated_threads, handle_rx_client, handle_tx_client"), ("shared SDR worker", "src/sdr_worker.c sdr_worker_destroy_by_dsp_worker_id, sdr_worker_add_dsp_worker")],
  "process survival, memory and race monitors, descriptor table of the harness")
p("C03", "Every disconnect and server stop completes; no client can stall another",
  "After a client disconnects or asks to shut down, and after the operator stops the server (by a termination signal, at any moment after the start), all the work done on its behalf ends in bounded time without further help from any client, and joining the stopped server returns. A client that stops reading its stream, a failing disk or a failing SDR never blocks other clients nor the end of its own session, and no schedule reaches a state where the server's threads wait for each other for ever.",
  ["schedules", "fault_sequences", "histories"],
  "All interleavings up to a deviation bound of the client, signal processing, SDR and acceptor threads, with a non-reading client, a dead SDR connection, disk write failures and server stop at each step.",
  "Tests use fast reading clients and stop an idle server; a deadlock needs a full queue or a blocked socket at the moment of teardown.",
  ["src/tcp_server.c", "src/sdr_worker.c", "src/dsp_worker.c", "src/queue.c"],
  [("stop and join", "src/tcp_server.c tcp_server_stop, tcp_server_join_thread"), ("teardown of a client", "src/sdr_worker.c sdr_worker_destroy_by_dsp_worker_id; src/dsp_worker.c dsp_worker_destroy")],
  "termination of the server threads and of join; progress of a second client")
p("C04", "Each request gets exactly one well formed answer and it is first on the wire",
  "For every request the server writes exactly one response frame with the right protocol version and a correct length: success with the identifier of the new session, or failure with the documented reason, or a pong-like success for a ping. It is sent in full before any stream data or other response for that session, reaches only the client that asked, and after a failed request the connection is closed.",
  ["schedules", "histories", "inputs"],
  "All interleavings up to a bound of clients that send each kind of request (valid, invalid, busy, unknown, ping, truncated) and pipeline data after it, with stream data available immediately.",
  "The order of the response and the first stream bytes, and of pipelined transmissions, depends on the schedule; tests see the common one.",
  ["src/tcp_server.c", "src/api_utils.c", "src/dsp_worker.c", "src/tcp_utils.c", "api.proto"],
  [("response writing", "src/tcp_server.c write_response / tcp_server_write_response"), ("stream start", "src/dsp_worker.c dsp_worker_callback")],
  "the bytes each client receives")
p("C05", "Exactly the supported requests are accepted; everything else is refused safely",
  "A receive or transmit request is accepted exactly when it is complete and every parameter it needs is supported by this server's configuration: modulation type, required settings, non-zero rates and decimations, a symbol rate the modem can process, an output destination, a valid orbit when Doppler correction is asked for, and an SDR of the right kind. Any other request, including malformed or truncated or oversized messages and out of range enumeration values, is answered with failure and the documented reason (invalid request when a field is missing or unsupported, internal error when the accepted parameters cannot be realised), starts no work, and never crashes the server.",
  ["inputs", "configurations"],
  "Every combination of up to two deviating fields from small per field alphabets with boundary values, every truncation and single byte mutation of valid messages, for each receiver and transmitter configuration.",
  "test_tcp_server.c checks about two dozen hand-written bad requests, one bad field each; combinations and boundary values are not covered.",
  ["src/tcp_server.c", "src/api_utils.c", "src/api.pb-c.c", "src/dsp_worker.c"],
  [("validation", "src/tcp_server.c validate_rx_request, validate_tx_request"), ("message reading", "src/api_utils.c api_utils_read_rx_request, api_utils_read_tx_request")],
  "response status and details; started SDR devices, threads and files")
p("C06", "At most one client owns the transmitter, and it is free again once released",
  "At any time at most one session is transmitting; a transmit request made while another session holds the transmitter is refused as busy and does not disturb the holder. Once the holder's connection has visibly ended, the next request is accepted and gets a fresh device. A full-duplex radio that cannot be shared for receiving follows the same rule for its receiver.",
  ["schedules", "histories"],
  "All interleavings up to a bound of two or three clients that request, transmit, disconnect or fail set-up, and reconnect as soon as they observe the end of the earlier session.",
  "The tests poll and sleep between sessions, so they cannot see the window between the connection's end and the release.",
  ["src/tcp_server.c", "src/sdr/plutosdr.c"],
  [("transmitter ownership", "src/tcp_server.c tx_initialized, rx_initialized, cleanup_terminated_threads, handle_tx_client")],
  "responses seen by clients; device open and close events")
p("C07", "Compatible receivers share one SDR stream and all stay isolated",
  "Sessions that ask for the same centre frequency, frequency offset and sampling rate (the demodulation parameters may differ) share one SDR connection, other sessions get their own, and no two SDR connections are opened for sessions that could share. Each session receives only data of its own tuning; a session that joins, leaves, fails or is slow never changes, ends or starves the stream of another, and the SDR connection is closed exactly when its last session ends.",
  ["schedules", "histories"],
  "All interleavings up to a bound of two or three receiving clients with equal or different tuning which connect and leave in every order.",
  "test_tcp_server.c has a test with two clients joining in a fixed order; join while the last session leaves is schedule dependent.",
  ["src/tcp_server.c", "src/sdr_worker.c", "src/dsp_worker.c"],
  [("sharing", "src/tcp_server.c handle_rx_client; src/sdr_worker.c sdr_worker_find_closest"), ("removal", "src/sdr_worker.c sdr_worker_destroy_by_dsp_worker_id")],
  "connections made to the SDR server; streams received by clients and files")
p("C08", "A receiver gets the demodulation of exactly the samples the SDR delivered",
  "Every requested output of a receive session (stream to the client, demodulated file, raw dump) contains the demodulation, respectively the copy, of a gap-free, unduplicated, ordered run of the samples delivered by the SDR since the session was attached, until either side ends, no matter how the SDR's bytes are cut into network reads or delayed. Only the documented overflow of a too slow consumer may drop whole buffers, and file outputs hold everything that was processed once the session has ended.",
  ["schedules", "fault_sequences", "inputs"],
  "All cuttings of a short sample stream into reads, including read timeouts in the middle of a sample, in all interleavings up to a bound of the SDR, signal processing and client threads, for each output destination and both doppler settings.",
  "Tests deliver whole buffers at once; partial reads and timeouts in the middle of a buffer are never exercised.",
  ["src/sdr_worker.c", "src/dsp_worker.c", "src/sdr/sdr_server_client.c", "src/queue.c", "src/dsp/fsk_demod.c"],
  [("stream reading", "src/sdr/sdr_server_client.c sdr_server_client_process_rx; src/sdr_worker.c sdr_worker_callback"), ("processing", "src/dsp_worker.c dsp_worker_callback")],
  "client byte stream and output files compared with an independent demodulation of the delivered samples")
p("C09", "Acknowledged transmit data is modulated completely, in order and exactly once",
  "For every transmit message answered with success, exactly its payload bits, preserved across messages in order, phase and filter continuity, have been modulated with the requested parameters and handed to the radio (and to the dump file if asked for); when the radio fails or the message is not fully received, the answer is failure (a failing dump file alone does not stop the transmission). No message size up to the protocol's limit is silently dropped or truncated.",
  ["inputs", "fault_sequences", "histories"],
  "All short histories of messages over payload sizes around the internal buffer boundaries, with each radio call failing, for plain, offset and Doppler corrected sessions and each samples per symbol class.",
  "Tests send a single buffer-sized message; sizes beyond the internal buffers combined with frequency correction are not tried.",
  ["src/tcp_server.c", "src/dsp/gfsk_mod.c", "src/dsp/doppler.c", "src/sdr/file_source.c", "src/sdr/plutosdr.c"],
  [("transmit path", "src/tcp_server.c handle_tx_data")],
  "samples handed to the transmit device and the response frames")
p("C10", "Message framing does not depend on how TCP cuts or delays the byte stream",
  "Any sequence of complete messages produces the same server actions and answers however its bytes are split into segments, merged, delayed within the read timeout or interrupted by signals; and responses are written completely even when the socket accepts only part of them. A message of an unknown kind or that is refused does not make the server misread the messages that follow, and a message that announces more than the supported size is refused.",
  ["inputs", "fault_sequences"],
  "Every segmentation (all cut points, pairs of cut points) of short conversations, with read interruptions, timeouts and partial writes at every system call.",
  "On loopback each message arrives in one read, so partial reads and writes are never exercised by the tests.",
  ["src/api_utils.c", "src/tcp_utils.c", "src/tcp_server.c"],
  [("header and body reading", "src/api_utils.c api_utils_read_header, src/tcp_utils.c tcp_utils_read_data, tcp_utils_write_data")],
  "answers and device actions under each segmentation")
p("C11", "All descriptors, threads, memory and radio handles are returned when work ends",
  "When a session ends, for whatever reason and at whatever stage its set-up failed, every descriptor, thread, file, memory block and radio handle acquired for it is released exactly once, and after the server is stopped nothing is left. No sequence of failed, refused or aborted requests makes the server's resource usage grow.",
  ["schedules", "fault_sequences", "histories"],
  "All interleavings up to a bound of short client histories, with each fallible system call (socket, connect, fopen, thread creation, radio call) failing in turn.",
  "Tests do not measure resources, and failures in the middle of set-up are not injected.",
  ["src/tcp_server.c", "src/api_utils.c", "src/sdr_worker.c", "src/dsp_worker.c", "src/sdr/sdr_server_client.c", "src/sdr/plutosdr.c"],
  [("set-up failure paths", "src/tcp_server.c handle_rx_client, handle_tx_client, tcp_server_create; src/sdr/sdr_server_client.c sdr_server_client_create")],
  "descriptor, thread, allocation and device accounting of the harness at the end of each execution")
p("C12", "Signal processing results do not depend on how the samples are cut into buffers",
  "For every processing block and for the whole demodulator and modulator, feeding a sample stream in any sequence of buffers yields the same concatenated output as feeding it at once: no sample is dropped, repeated or processed with the wrong history at a buffer boundary, including empty buffers and buffers shorter than the filters.",
  ["inputs", "histories"],
  "All compositions of a short input into consecutive buffers, for small filter lengths, decimations, interpolations and loop settings, and for complete modems with realistic parameters.",
  "Unit tests use one or two fixed chunk sizes, mostly larger than the filters.",
  ["src/dsp/fir_filter.c", "src/dsp/interp_fir_filter.c", "src/dsp/clock_recovery_mm.c", "src/dsp/dc_blocker.c", "src/dsp/quadrature_demod.c", "src/dsp/lpf.c", "src/dsp/fsk_demod.c", "src/dsp/gfsk_mod.c", "src/dsp/frequency_modulator.c", "src/dsp/sig_source.c"],
  [("history handling", "src/dsp/*.c *_process functions")],
  "concatenated outputs of the processing calls")
p("C13", "Each signal processing block computes its mathematical definition",
  "For every supported configuration and input each block's output equals, within floating point tolerance, an independent evaluation of its definition: filters are the convolution with their taps, decimated or interpolated by their factor; the frequency demodulator is the scaled phase difference; the modulator's phase is the accumulated input; the oscillator is a continuous complex exponential; the DC blocker, symbol timing loop and filter designs follow their published formulas. The number of outputs is exactly the one the definition gives.",
  ["inputs", "configurations"],
  "All configurations in a small grid (taps, decimation, interpolation, gains, window parameters) with enumerated impulse, step and binary inputs that span the input space of the linear blocks.",
  "Unit tests compare one recorded vector per block.",
  ["src/dsp/fir_filter.c", "src/dsp/interp_fir_filter.c", "src/dsp/lpf_taps.c", "src/dsp/gaussian_taps.c", "src/dsp/quadrature_demod.c", "src/dsp/frequency_modulator.c", "src/dsp/sig_source.c", "src/dsp/dc_blocker.c", "src/dsp/mmse_fir_interpolator.c", "src/dsp/clock_recovery_mm.c", "src/math/fast_atan2f.c"],
  [("block definitions", "src/dsp/*.c, src/math/fast_atan2f.c")],
  "outputs of each block")
p("C14", "Every accepted modem configuration is processed within its buffers",
  "For every modem configuration that is accepted, and buffers of every length up to the configured maximum, processing reads and writes only inside its own buffers, terminates, performs no undefined arithmetic such as division by zero, and returns no more output than the announced maximum. A buffer larger than the maximum, and a configuration that cannot be realised, are refused with an error instead.",
  ["inputs", "configurations"],
  "A grid of sampling rates, baud rates, decimations, deviations and buffer sizes with boundary values, with every buffer length sequence from a small alphabet that includes 0, 1, the filter boundaries and the maximum.",
  "Tests use four modem configurations; overflow needs particular ratios and lengths and is silent without instrumentation.",
  ["src/dsp/fsk_demod.c", "src/dsp/gfsk_mod.c", "src/dsp/clock_recovery_mm.c", "src/dsp/fir_filter.c", "src/dsp/interp_fir_filter.c", "src/dsp/dc_blocker.c", "src/dsp/doppler.c", "src/dsp_worker.c"],
  [("buffer sizing", "src/dsp/*.c *_create functions")],
  "memory monitor and return values")
p("C15", "Doppler correction follows the satellite continuously with the right sign",
  "With Doppler correction the received signal is shifted by the satellite's Doppler shift and the transmitted signal by its opposite, plus the configured constant offset, as computed from the orbit elements, the station position and the time that corresponds to each sample counted from the start time (or from now if none is given). At every sample the applied frequency lies between the exact values at the surrounding whole seconds (to within one hertz), the phase is continuous and the amplitude unchanged, however the samples are cut into buffers, and an invalid orbit, or one that has no position, is refused.",
  ["inputs", "histories", "configurations"],
  "All cuttings of several seconds of samples at very low sampling rates, for a set of near-earth and deep-space orbits, stations, times and offsets, both directions.",
  "test_doppler.c replays one recording with one satellite, in one chunk size.",
  ["src/dsp/doppler.c", "src/dsp/sig_source.c", "src/sgpsdp/sgp4sdp4.c", "src/sgpsdp/sgp_obs.c", "src/sgpsdp/sgp_time.c", "src/sgpsdp/sgp_math.c"],
  [("frequency updates", "src/dsp/doppler.c doppler_process, doppler_calculate_shift")],
  "phase increments of the corrected signal against an independent orbit computation")
p("C16", "The SDR server client speaks its protocol and survives every server behaviour",
  "A receive session asks the SDR server for exactly the requested frequency band and sampling rate in its wire format, starts only after a success answer, and reports failure on any refusal, disconnect, short or late answer. While streaming, samples are returned bit exact and aligned whatever the read sizes; the end of the stream is reported once; stopping unblocks a waiting read and never disturbs another connection.",
  ["fault_sequences", "schedules", "inputs"],
  "All short scripts of server behaviours (accept, refuse, close, truncate, delay, interrupt) at each step of the conversation, all read cuttings, and stop at every point.",
  "The mock server in the tests always answers fully and at once.",
  ["src/sdr/sdr_server_client.c", "src/sdr/sdr_server_api.h", "src/tcp_utils.c"],
  [("connection set-up", "src/sdr/sdr_server_client.c sdr_server_client_create"), ("stop", "src/sdr/sdr_server_client.c sdr_server_client_stop")],
  "bytes seen by the SDR server and samples returned to the caller")
p("C17", "The PlutoSDR is configured exactly as asked, never misused, and always released",
  "For every requested tuning and gain the radio is programmed with exactly the channel, frequency, bandwidth, sampling rate, gain, filter and decimation the request implies, and samples are scaled and interleaved exactly and delivered in order. If any call to the radio fails, the operation reports failure (switching off the unused transmitter while only receiving is best effort), no half configured radio is used, and every context, buffer and enabled channel is released exactly once; an unsupported sampling rate is refused.",
  ["fault_sequences", "inputs", "configurations"],
  "Every call to the radio library failing in turn (and pairs), all create, process and destroy sequences up to a small length, sampling rates around each threshold, buffer lengths around the hardware buffer, and both directions.",
  "The tests' mock fails only in a few scripted places and never checks releases or call order.",
  ["src/sdr/plutosdr.c", "src/sdr/iio_lib.c", "src/sdr/iio_lib.h"],
  [("set-up", "src/sdr/plutosdr.c plutosdr_create"), ("sample conversion", "src/sdr/plutosdr.c plutosdr_process_rx, plutosdr_process_tx")],
  "calls and written attributes observed by a recording radio library")
p("C18", "File based radios replay and record samples exactly",
  "A file receiver returns exactly the file's samples in order, shifted by the requested frequency offset, in pieces of at most the buffer size, up to and including the last complete sample, and then reports the end; a file transmitter stores exactly the samples given, in order, shifted by its offset, and reports a write error as failure. A missing file or unusable path is reported at start and leaves nothing behind; a read error is reported as failure and not taken for the end.",
  ["inputs", "fault_sequences"],
  "File lengths (in bytes) around multiples of the sample and buffer sizes, all short sequences of read and write sizes, short reads and write errors at each call, and zero and non-zero offsets.",
  "Tests read one file whose length is convenient and never inject short or failing I/O.",
  ["src/sdr/file_source.c", "src/dsp/sig_source.c"],
  [("reading and writing", "src/sdr/file_source.c file_source_process_rx, file_source_process_tx")],
  "returned samples and file contents")
p("C19", "The configuration file means what the documentation says",
  "Every documented setting present in a configuration file takes effect with its value, every missing one has its documented default, and a file that is missing, malformed, or contains an unknown radio type or an invalid value is refused with an error rather than half applied. Loading and destroying configurations leaks nothing.",
  ["inputs", "configurations"],
  "All subsets of settings present or missing (pairwise with type and boundary value alternatives for each) and unreadable or malformed files.",
  "Four sample files are tested.",
  ["src/server_config.c", "src/server_config.h"],
  [("configuration loading", "src/server_config.c server_config_create")],
  "fields of the loaded configuration and return codes")
p("C20", "The session registries behave like a sequence under every operation history",
  "Adding, finding, visiting, removing by identifier or by predicate, and destroying sessions in the server's registries has the effect of the same operations on a plain sequence: each stored session is found and visited in order exactly once, removal detaches exactly the selected sessions and disposes of each once, and no other session is affected.",
  ["histories"],
  "All operation sequences up to a small depth over a few elements, including removals of the first, middle, last and all elements and selection predicates of every outcome.",
  "test_linked_list.c tries a few fixed sequences.",
  ["src/linked_list.c"],
  [("registry", "src/linked_list.c")],
  "results of operations and disposal callbacks")
p("C21", "Orbit elements are decoded exactly or refused, without touching foreign memory",
  "A two-line element set is accepted exactly when both lines have the right line numbers, length and checksum, carry the same satellite number and have their decimal points and numeric fields in place; its values are decoded as the format defines (including implied decimal points, exponents, signs and the century rule), and its kind (near-earth or deep-space) is selected by its orbital period. Any other text of any length is refused, without reading or writing outside the supplied lines.",
  ["inputs"],
  "For a set of valid element sets: every single character substitution from a small alphabet at every column with and without a corrected checksum, every truncation, and all short names.",
  "Only one valid element set and one invalid one are tested.",
  ["src/sgpsdp/sgp_in.c", "src/sgpsdp/sgp4sdp4.c", "src/tcp_server.c", "src/dsp/doppler.c"],
  [("element parsing", "src/sgpsdp/sgp_in.c Get_Next_Tle_Set, Checksum_Good, Good_Elements, Convert_Satellite_Data")],
  "decoded values and return codes")
p("C22", "What the modulator sends, the demodulator with matching settings receives",
  "For every supported pairing of symbol rate, deviation, samples per symbol and decimation, every bit pattern that follows a data-like preamble (long enough for the symbol timing to settle) comes back unchanged and in order, at a fixed delay, when modulated and then demodulated over an ideal channel, with most significant bit first and the documented polarity, however either side's data is cut into buffers.",
  ["inputs", "configurations"],
  "All bit patterns of a small length embedded in a fixed preamble, for a grid of symbol rates, deviations and decimations and several buffer cuttings.",
  "No test connects the modulator with the demodulator.",
  ["src/dsp/gfsk_mod.c", "src/dsp/fsk_demod.c"],
  [("modem", "src/dsp/gfsk_mod.c gfsk_mod_process, src/dsp/fsk_demod.c fsk_demod_process")],
  "recovered bits")
p("C23", "Running out of memory is reported and leaves everything consistent",
  "When any single memory allocation fails, the operation that needed it (loading the configuration, starting the server, a client request, building a radio or a processing block) reports failure, releases what it had acquired, disturbs no other session and does not crash.",
  ["fault_sequences"],
  "Each allocation made by each constructor and by each client request handling failing in turn.",
  "Allocation failures never happen in the tests.",
  ["src/tcp_server.c", "src/server_config.c", "src/queue.c", "src/dsp_worker.c", "src/sdr_worker.c", "src/dsp/fsk_demod.c", "src/dsp/gfsk_mod.c", "src/sdr/plutosdr.c", "src/sdr/sdr_server_client.c", "src/sdr/file_source.c", "src/linked_list.c"],
  [("constructors", "src/**/*_create functions")],
  "return codes, memory monitor and resource accounting")
p("C24", "Requests and answers keep their meaning across the wire encoding",
  "Every request encoded by an independent implementation of the published message schema, with its fields in any order, repeated, or accompanied by unknown fields, is decoded to exactly the values that were encoded, and defaults apply to missing optional parts; answers and length prefixes written by the server decode to the values it meant. Malformed encodings are refused as invalid.",
  ["inputs"],
  "All boundary values of each field, all field orders of small messages, unknown and repeated fields, and every truncation and single byte corruption of sample messages.",
  "Tests encode and decode with the same generated code and a few values, so a field mix-up would cancel out.",
  ["api.proto", "src/api.pb-c.c", "src/api_utils.c", "src/api.h"],
  [("wire decoding", "src/api_utils.c, src/api.pb-c.c")],
  "decoded requests and encoded responses")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
