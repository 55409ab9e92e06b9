NA = {}
_E = "exploration"; _M = "model_checking"; _F = "fault_enumeration"
CLAIMS = {
 "E01": (TECH, _M, "Every history over the stated alphabet up to the stated depth across the three parts, and all interleavings of storage calls of the stated pairs, on the real code against a reference model; nothing beyond those bounds."),
 "M01": (TECH, _M, "Every interleaved history of two deployments up to the stated depth, every single-bit key difference, and all interleavings of the stated pairs within the bound, on the real code against a reference model per deployment; nothing beyond those bounds."),
 "D01": (TECH, _M, "Every history over the stated alphabet up to the stated depth, on the real code, against a reference map; nothing beyond those bounds."),
 "K01": (INPUT, _E, "All inputs in the stated size, bit and byte ranges on the real code against an independent reference; nothing beyond."),
 "K02": (INPUT, _E, "All inputs in the stated size, bit and byte ranges on the real code against an independent RFC 5649 implementation; nothing beyond."),
 "K03": (INPUT, _E, "All lengths, splittings and call sequences in the stated ranges on the real code against an independent SP 800-185 implementation; nothing beyond."),
 "K04": (INPUT, _E, "All combinations of the stated values and all call sequences up to the depth on the real code; nothing beyond."),
 "K05": (INPUT, _E, "All stated single changes of generated passwords and hashes, with the real number of rounds, against an independent PBKDF2; nothing beyond."),
 "A01": (INPUT, _E, "All pairs of scope values below the end marker and selected high bits on the real code; nothing beyond."),
 "D02": (TECH, _M, "All combinations of token state, caller scopes, list and group memberships and operations in the stated alphabet, and all histories up to the depth, on the real code against a reference decision; nothing beyond those bounds."),
 "D03": (TECH, _M, "All histories of list-changing and other operations up to the depth on the real code against a reference set; nothing beyond those bounds."),
 "D04": (FAULT, _F, "All histories up to the depth and every failure and crash point of Delete and of its repetitions, on the real code; nothing beyond those bounds."),
 "D05": (FAULT, _F, "Every bit flip, truncation, field exchange, relocation and roll-back of the generated records, singly and in the stated pairs, on the real code; nothing beyond those bounds."),
 "D06": (FAULT, _F, "Every storage call of every operation fails in every way, up to the stated number of failures per history, on the real code; nothing beyond those bounds."),
 "D07": (TECH, _M, "All histories up to the depth with forced identifier collisions against every stored part, on the real code; nothing beyond those bounds."),
 "P01": (TECH, _M, "Every provider call of all histories up to the depth is checked against the footprint of its operation; nothing beyond those bounds."),
 "S01": (TECH, _M, "Every byte handed to storage in all histories up to the depth is searched, and each history compared with its twin over other secrets; recognised encodings are the listed ones."),
 "S02": (TECH, _M, "All histories up to the depth and all interleavings of two sealing operations within the preemption bound; every record is opened and its key and nonce located in the recorded random stream."),
 "S03": (INPUT, _E, "All record kinds, directions, keys and key lengths in the stated ranges against an independent implementation of the formats and against records of the original release."),
 "T01": (TECH, _M, "Every instant, field change, truncation and bit flip in the stated ranges under a virtual clock, on the real code; nothing beyond those bounds."),
 "U01": (TECH, _M, "All histories of user, group and login operations up to the depth against a reference model, on the real code; nothing beyond those bounds."),
 "U02": (TECH, _M, "All histories of membership changes by every caller up to the depth against a reference model, on the real code; nothing beyond those bounds."),
 "U03": (FAULT, _F, "Every bit flip, truncation, field exchange, relocation and roll-back of the generated user and group records, on the real code; nothing beyond those bounds."),
 "U04": (FAULT, _F, "Every storage call of every operation fails in every way, up to the stated number of failures per history, on the real code; nothing beyond those bounds."),
 "U05": (SCHED, _M, "All interleavings of storage calls of the stated pairs and triples of operations against all their sequential orders, on the real code; nothing beyond those bounds."),
 "X01": (TECH, _M, "All histories over the stated alphabet up to the depth, all pairs of the stated odd strings, all stated lengths and chain lengths, on the real code against a reference map; nothing beyond those bounds."),
 "X02": (FAULT, _F, "Every storage call of every operation fails in every way, up to the stated number of failures per history, on the real code; nothing beyond those bounds."),
 "X03": (INPUT, _E, "All 512 scope values with every operation and the stated tokens, groups and histories on the real code; nothing beyond."),
 "X04": (FAULT, _F, "Every relocation, roll-back, removal, field exchange, bit flip and truncation of the generated records, singly and in the stated pairs, on the real code; nothing beyond those bounds."),
 "X05": (SCHED, _M, "All interleavings within the stated preemption bounds of the stated pairs and triples of operations, on the real code; nothing beyond those bounds."),
 "I01": (TECH, _M, "All operation sequences up to the depth, all pairs of the stated keys, all stated value sizes, on the real providers against a reference map; nothing beyond those bounds."),
 "I02": (SCHED, _M, "All interleavings within the stated preemption bounds of the stated programs, at statement and synchronisation level, on the real providers; sequentially consistent memory."),
 "I03": (FAULT, _F, "Every crash point and every set of lost unsynchronised writes (within the stated cap) of all write sequences up to the depth, on the real provider and real bbolt; nothing beyond those bounds."),
 "B01": (TECH, _M, "Every exported operation with every argument in guarded buffers of the stated sizes and spare capacities, and all histories up to the depth, on the real code; nothing beyond those bounds."),
 "L01": (SCHED, _M, "Every operation under the stated loggers and every pair of operations sharing a context under all interleavings within the preemption bound, on the real code; zerolog itself is not scheduled."),
 "C01": (SCHED, _M, "All interleavings within the stated preemption bounds of the stated pairs and triples of operations, on the real code, against the outcomes of all sequential orders; nothing beyond those bounds."),
 "C02": (SCHED, _M, "All interleavings of storage calls of the stated programs on the real code, against all sequential orders; outcomes of overlapping writers that no order explains are known findings when an abstract model of the storage calls produces exactly them; nothing beyond those bounds."),
 "C03": (SCHED, _M, "All interleavings within the preemption bounds of the stated pairs of operations on the real code, with happens-before race detection in each; nothing beyond those bounds."),
}