COMMON="Trusts the SSA builder, the condition generator and the solvers; buffers below 2^40 bytes, allocation succeeds; assumed contracts of user callbacks and library functions are listed in the evidence."
NA={}
CLAIMED={
"C01":"For all values and buffers: appendAny meets its encoding contract on every path.",
"C02":"For all values and buffers: appendExpr meets its encoding contract on every path.",
"C03":"For all payloads, collations and buffers.",
"C04":"For all 2^64 durations and all buffers.",
"C05":"For all names, operand lists (loop invariants, no bound) and buffers.",
"C06":"For every exported constructor, all operands, with the caller's list arbitrary at the time of encoding.",
"C07":"For all statements, ids, argument lists and buffers.",
"C08":"For all names, columns, rows and buffers; callbacks by contract.",
"C09":"For all names, criteria and assignments; callbacks by contract.",
"C11":"For all isolation levels and callbacks (by contract), from every builder state.",
"C12":"For all contexts, condition lists and field names below 2^31 bytes.",
"C10":"For every builder state and message list length: frames tile the buffer (RTile contracts with a ghost tile count).",
"C13":"For every error source and every callback (by contract): the first error latches and is what Send returns, nothing is sent.",
"C14":"For all callbacks (by contract, which may call the enclosing builder).",
"C15":"For all tables, rows and builder states.",
"C23":"For all 2^64 ids; the constants by their declared values.",
"C24":"For all names, flags, data lengths and buffers; protobuf marshalling by the field tags of the generated structs.",
"C16":"For every byte stream (as a sequence of bounded protocol messages, including truncation at any byte), every buffer state and every message length; protobuf decoding by the generated field types.",
"C17":"For all batches of frames, deadlines and write/read outcomes.",
"C19":"For all options, authentication step outcomes and transport faults; the starter interfaces by contract.",
"C18":"For all credentials, challenges and scratch buffers; SHA-1 and SHA-256 as uninterpreted functions of the bytes written.",
"C20":"For every interleaving, by thread-modular contracts: a lock invariant (the closed flag only changes under the lock, from false to true), ownership transfer through the channel, and every other goroutine bound by the same contracts; all pool sizes, all failures.",
"C21":"For every digit count up to 77 (a case split), all digits, signs, scales and buffers.",
"C22":"For all buffers, capacities, positions and sizes.",
}
