VEC = "TLA+ Tdt.tla: TLC enumerates boundary cases with their demanded outcome (TdtGraph), replayed on the real code + trace validation of random calls by TLC (TdtTrace)"
VN = "Exhaustive over TdtGraph's boundary cases (all schemes, partitions, powers of two, digit limits, headers, AFIs, 6-bit characters and alignments, bad fields), sampled beyond; trusts TLC and Tdt.tla's reading of the GS1/ISO tables."
for p in ("C08", "C09", "C10", "C11", "C12", "C13"):
    CLAIMED[p] = (VEC, VN)
FEC = "TLA+ Filters.tla: TLC enumerates bounded cases with their demanded outcome (FiltersGraph), replayed on the real code + trace validation of random calls by TLC (FiltersTrace)"
FN = "Exhaustive over FiltersGraph's small filters/offsets, overlapping pairs and triples, sets of short filters and small files; sampled beyond (long filters, random sets and files); trusts TLC and the driver's recording."
for p in ("C14", "C15", "C16", "C18"):
    CLAIMED[p] = (FEC, FN)
FAC = "TLA+ Factory.tla: runs of the real factory in virtual time, with controlled generation, search durations and consumer, are recorded and validated by TLC (FactoryTrace; unrecorded steps are searched for)"
FAN = "Sampled schedules (virtual time, seeds); engines are doubles of the Engine interface; C20 additionally runs under the race detector; trusts TLC, testing/synctest and the driver's recording."
for p in ("C20", "C21", "C22", "C23", "C24", "C25"):
    CLAIMED[p] = (FAC, FAN)
CLAIMED["C30"] = ("TLA+ Stat.tla: points received by a recording database from the real statistics manager, validated by TLC (StatTrace)", "Sampled message sequences, one and several senders, slow databases; trusts TLC and the recording HTTP server.")
CLAIMED["C32"] = ("TLA+ Middleware.tla: sessions of the real gosstrak-fc with a recording reader, validated by TLC (MiddlewareTrace)", "Sampled sessions and TCP segmentations; message kinds the middleware knows, reports with a PC; trusts TLC and the driver's reader.")
CLAIMED["C33"] = ("TLA+ Middleware.tla over Engine.tla: runs of the real gosstrak-fc with a recording reader and database, validated by TLC (MiddlewareTrace)", "Sampled runs (seconds of real time each); trusts TLC and the driver's reader and database.")
CLAIMED["C34"] = ("TLA+ TagFile.tla: conversions by the real gobtags of lists printed by the real generator, validated by TLC (TagFileTrace)", "Sampled lists; trusts TLC and the reader library's decoder.")
CLAIMED["C36"] = ("TLA+ SixEnc.tla: runs of the real sixenc2bin on every character and on random texts, validated by TLC (SixEncTrace)", "Every character up to U+0103 alone and between others, sampled texts; trusts TLC.")
CLAIMED["C39"] = ("TLA+ Storage.tla: documents saved by the real engines and sets, cut at every byte and read into every kind of engine, validated by TLC (StorageTrace)", "Every byte of short documents, both ends and a sample between of long ones; sampled subscription sets; trusts TLC and the driver.")
CLAIMED["C38"] = ("TLA+ Endpoint.tla (Mirror.tla and the acknowledgements owed): runs of the real gosstrak-fc with concurrent management connections, streams, cuts and intruders and a busy reader session, validated by TLC (MirrorTrace)", "Sampled runs; trusts TLC, go-llrp and the SPDY client library.")
CLAIMED["C37"] = ("TLA+ Mirror.tla: runs of the real ale-ec with concurrent connections, streams, cuts and intruders, validated by TLC (MirrorTrace)", "Sampled runs; trusts TLC and the SPDY client library.")
CLO = "TLA+ Engine.tla: TLC state graph (EngineGraph); the product of that graph and the real engines' whole object states explored to a fixpoint; walks replayed; random runs validated by TLC (EngineTrace)"
CLN = "Exhaustive for histories of any length within six universes (eight in thorough) of six to eight patterns, except where cut off at 40000 states (List); sampled beyond; trusts TLC, Tdt.tla's bit layouts, reflection-based copies of engine objects and the driver's projection of reports to destinations."
for p in ("C02", "C03", "C04", "C05", "C06", "C07"):
    CLAIMED[p] = (CLO, CLN)
CLAIMED["C24"] = (FAC + "; FactoryImpl.tla, a goroutine-and-channel model, is checked by TLC to refine Factory.tla", FAN + " FactoryImpl: all interleavings of two engines, two callers, up to two intervals.")
CLAIMED["C25"] = (FAC + "; FactoryImpl.tla refines Factory.tla without deadlock (thorough)", FAN)
CLAIMED["C40"] = ("TLA+ Printed.tla over Engine.tla: what the real engines print of themselves in random histories, read as an outline and compared with the abstract engine's subscriptions by TLC (EngineTrace, FiltersTrace)", "Sampled histories of all engines and sampled arrangements; trusts TLC and the driver's splitting of lines.")
CLAIMED["C41"] = ("TLA+ Tdt.tla: printed forms of generated and random tags and texts, validated by TLC (TdtTrace)", "Sampled tags of all schemes and sizes; trusts TLC.")
